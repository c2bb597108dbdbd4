From bd7580f1ef36fa84e1a42747e2196cd39589f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:56 +0000
Subject: [PATCH 01/73] fix: never group an object with a reader of its delayed
 outputs

Objects with the same trigger index may be executed in any order or in parallel,
but an object listed after the reader of its delayed (':-1') output got the same
index, so the reader could see the current value instead of the previous one.
---
 specula/simul.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..42cecac 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -261,8 +261,11 @@ class Simul():
             if len(leaves) == 0:
                 break
             start = len(params)
+            # Objects with the same index are executed together, in any order: an object
+            # cannot have the same index as another one reading its delayed outputs.
+            params_at_start = dict(params)
             for leaf in leaves:
-                if self.has_delayed_output(leaf, params):
+                if self.has_delayed_output(leaf, params_at_start):
                     continue
                 order.append(leaf)
                 order_index.append(index)
-- 
2.43.0


From 88a35e54b07820753bb92bbb81eadedb4d9df7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 02/73] fix: convert seconds to the nearest nanosecond

int() truncated the product, so that several exact nanosecond values
(e.g. 4.061e-6 s) became one nanosecond too short.
---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..b76ac1d 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(seconds * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From 7f8659fa82fb84b22b5ce4ef6cd05dcca1d7534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 03/73] fix: speed report must not abort the run when the wall
 clock does not advance

---
 specula/loop_control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 4aa0ba1..3eb6675 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -158,7 +158,9 @@ class LoopControl(BaseTimeObj):
             if self.iter_counter == self.last_reported_counter + self.report_interval:
                 cur_time = time.time()
                 elapsed_time = cur_time - self.last_reported_time
-                msg = f"{self.report_interval / elapsed_time:.2f} Hz,  {1000 * elapsed_time / self.report_interval :.3f} ms"
+                # The wall clock may not have advanced since the last report
+                speed = self.report_interval / elapsed_time if elapsed_time > 0 else float('inf')
+                msg = f"{speed:.2f} Hz,  {1000 * elapsed_time / self.report_interval :.3f} ms"
                 print(f't={self.t_to_seconds(self.t):.6f} {msg}')
                 self.last_reported_time = cur_time
                 self.last_reported_counter = self.iter_counter
-- 
2.43.0


From 8139def3056d0a411aad8f9976e0b7ffb996e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 04/73] fix: detect the last iteration when the run time is not
 a multiple of the time step

niters() rounded down and counted t0 twice, so delayed MPI outputs were not sent
to their receivers in the real last iteration (the receiving rank waits forever),
or were sent when nobody receives them.
---
 specula/loop_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 3eb6675..9f78415 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -39,7 +39,8 @@ class LoopControl(BaseTimeObj):
         Returns:
             int: The number of iterations.
         """
-        return int((self.run_time + self.t0) / self.dt) if self.dt != 0 else 0
+        # run() executes all steps starting before t0 + run_time, including a partial last one
+        return -(-self.run_time // self.dt) if self.dt != 0 else 0
 
     def run(self, run_time, dt, t0=0, speed_report=False):
         """
-- 
2.43.0


From 160f4e0c5f546e0b10bc98eddcc0569a201d7e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 05/73] fix: an unconnected optional input list counts as an
 unset input

Objects whose only inputs are optional lists were never triggered when nothing
was connected, unlike objects whose only inputs are optional single values.
---
 specula/base_processing_obj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 6008f5f..3bda900 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -71,8 +71,10 @@ class BaseProcessingObj(BaseTimeObj):
         self.get_all_inputs()
 
         # Inputs are all optional, and none of them is set: always trigger
+        # (an optional input list with no connections is an empty list)
         if all((self.inputs[k].optional is True and
-                self.local_inputs[k] is None)
+                (self.local_inputs[k] is None or
+                 (type(self.local_inputs[k]) is list and len(self.local_inputs[k]) == 0)))
                for k in self.inputs):
             return True
 
-- 
2.43.0


From 5c0615e74f7fbb6ac21bd13b455055b7e24e3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 06/73] fix: transfer data objects holding zero-dimensional
 arrays

A BaseValue created without a value and later set to a scalar holds a
0-d array, which cannot be copied with [:].
---
 specula/base_data_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index fcca3ce..84c8ac1 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -75,7 +75,7 @@ class BaseDataObj(BaseTimeObj):
                         if self.PerformanceWarning:
                             warnings.simplefilter("ignore", category=self.PerformanceWarning)
                         try:
-                            dest_attr[:] = self_attr
+                            dest_attr[...] = self_attr
                         except:
                             dest_attr = self_attr
                 elif DtH:
@@ -85,7 +85,7 @@ class BaseDataObj(BaseTimeObj):
                 elif HtD:
                     dest_attr.set(self_attr)
                 elif HtH:
-                    dest_attr[:] = self_attr
+                    dest_attr[...] = self_attr
                 else:
                     print(f'Warning: mismatch between target_device_idx and array allocation, forcing reallocation ({destobj}.{attr})')
                     force_reallocation = True
-- 
2.43.0


From 5127c0b4f1657a1600495d7cbe64c65a245656bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 07/73] fix: send non-contiguous outputs through MPI

Outputs may be strided views (e.g. the delayed command of a filter), that
cannot be used as MPI buffers, or have a different memory order from the
copy held by the receiver. Always exchange C-ordered buffers.
---
 specula/base_processing_obj.py | 6 ++++--
 specula/connections.py         | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 3bda900..13d2721 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -1,6 +1,6 @@
 from collections import defaultdict, namedtuple
 
-from specula import cpuArray, default_target_device, cp, MPI_DBG, MPI_SEND_DBG
+from specula import cpuArray, default_target_device, np, cp, MPI_DBG, MPI_SEND_DBG
 from specula import show_in_profiler
 from specula import process_comm, process_rank
 from specula.base_time_obj import BaseTimeObj
@@ -168,7 +168,9 @@ class BaseProcessingObj(BaseTimeObj):
             if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer', dest_tag, type(buffer), buffer, flush=True)
             if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer type', dest_tag, buffer.dtype, flush=True)
 
-            process_comm.Ibsend(cpuArray(buffer), dest=dest_rank, tag=dest_tag)
+            # MPI needs a contiguous buffer, while outputs can be views of larger arrays.
+            # Data is always sent in C order, independently from the local memory layout.
+            process_comm.Ibsend(np.ascontiguousarray(cpuArray(buffer)), dest=dest_rank, tag=dest_tag)
 
             process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
         if item.get_value() is not None:
diff --git a/specula/connections.py b/specula/connections.py
index f98e61b..21994f5 100644
--- a/specula/connections.py
+++ b/specula/connections.py
@@ -42,7 +42,7 @@ class _InputItem():
         else:
             if MPI_SEND_DBG: print(process_rank, f'Recv with Buffer', flush=True)
             new_value = self.cloned_value
-            buffer = cpuArray(self.cloned_value.get_value())
+            buffer = np.empty_like(cpuArray(self.cloned_value.get_value()), order='C')
             if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer', type(buffer))
             if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer dtype', buffer.dtype)
             process_comm.Recv(buffer, source=self.remote_rank, tag=self.tag)
-- 
2.43.0


From 018ff8f12bd867f6bdf42ae0a4e88d76c2a59113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 08/73] fix: do not send data objects to remote ranks

A data object used as an input by an object on another rank was treated as a remote
output, failing with AttributeError, while it is already available on all ranks.
---
 specula/simul.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index 42cecac..6fef55d 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -630,7 +630,9 @@ class Simul():
         output = self.split_output(output_name, get_ref=True)
         local_dest_object = dest_object in self.objs.keys()
 
-        send = output.ref is not None and local_dest_object is False
+        # Data objects are built on all ranks, and do not need to be sent
+        send = output.ref is not None and local_dest_object is False and \
+               not self.is_dataobj[output.obj_name]
         recv = output.ref is None and local_dest_object is True
         local = output.ref is not None and local_dest_object is True
         if send or recv:
-- 
2.43.0


From 8a37a0049ac8ec889434e0fac18224238a5512b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 09/73] fix: draw clock-induced charges and roof defects from
 seeded generators

---
 specula/processing_objects/ccd.py                   | 6 +++++-
 specula/processing_objects/modulated_double_roof.py | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index fa7217f..f9d8bd4 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -49,6 +49,7 @@ class CCD(BaseProcessingObj):
                  ADU_gain: float=None,
                  ADU_bias: int=400,
                  emccd_gain: int=None,
+                 cic_seed: int=4,
                  target_device_idx: int=None,
                  precision: int=None):
         """
@@ -112,6 +113,8 @@ class CCD(BaseProcessingObj):
         emccd_gain : int, optional
             Electron-multiplying CCD gain (default is None, which sets a default value based
             on excess noise).
+        cic_seed : int, optional
+            Random seed for clock-induced charge noise (default is 4).
         target_device_idx : int, optional
             Target device index for computation (CPU/GPU). Default is None (uses global setting).
         precision : int, optional
@@ -220,6 +223,7 @@ class CCD(BaseProcessingObj):
         self._photon_rng = self.xp.random.default_rng(self._photon_seed)
         self._readout_rng = self.xp.random.default_rng(self._readout_seed)
         self._excess_rng = self.xp.random.default_rng(self._excess_seed)
+        self._cic_rng = self.xp.random.default_rng(cic_seed)
 
         self.inputs['in_i'] = InputValue(type=Intensity)
         self.outputs['out_pixels'] = self._pixels
@@ -272,7 +276,7 @@ class CCD(BaseProcessingObj):
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
 
         if self._cic_noise:
-            pixels += self.xp.random.binomial(1, self._cic_level, pixels.shape)
+            pixels += self._cic_rng.binomial(1, self._cic_level, pixels.shape)
         
         if self._photon_noise:
             pixels[:] = self._photon_rng.poisson(pixels)
diff --git a/specula/processing_objects/modulated_double_roof.py b/specula/processing_objects/modulated_double_roof.py
index 1ac9f05..96a65d9 100644
--- a/specula/processing_objects/modulated_double_roof.py
+++ b/specula/processing_objects/modulated_double_roof.py
@@ -128,6 +128,8 @@ class ModulatedDoubleRoof(ModulatedPyramid):
             roof2_tlt += A - 1 - 0.5*x
 
         # Apply edge and tip defects to both roofs
+        # (dedicated generator: the defects are the same in every run)
+        rng = self.xp.random.RandomState(1)
         xx, yy = make_xy(A * 2, A, xp=self.xp)
 
         for roof_tlt in [roof1_tlt, roof2_tlt]:
@@ -137,13 +139,13 @@ class ModulatedDoubleRoof(ModulatedPyramid):
             idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) |
                                 (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
             if len(idx_edge[0]) > 0:
-                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_edge[0]))
+                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * rng.rand(len(idx_edge[0]))
 
             # distance from tip
             d = self.xp.sqrt(xx ** 2 + yy ** 2)
             idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
             if len(idx_tip[0]) > 0:
-                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_tip[0]))
+                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * rng.rand(len(idx_tip[0]))
 
             # distance from tip (maya)
             idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
-- 
2.43.0


From d5b70dee406a0aac4665aaf320f7b4c894a162f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:21 +0000
Subject: [PATCH 10/73] fix: clear the shared padded array of SH before each
 computation

---
 specula/processing_objects/sh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..4cf6d8f 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -449,6 +449,10 @@ class SH(BaseProcessingObj):
 
     def trigger_code(self):
 
+        # The padded array is shared with other SH objects, which may have
+        # written a larger subaperture in it
+        self._wf3[:] = 0
+
         # Work on SH rows (single-subap code is too inefficient)
 
         for i in range(self.subap_rows_slice.start, self.subap_rows_slice.stop):
-- 
2.43.0


From 6e9b23fdb60388849f4bf7f4edd079a8be1c3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:03 +0000
Subject: [PATCH 11/73] fix: align exposures and windows to the steps when
 start_time is not a multiple of the time step

---
 specula/processing_objects/ccd.py                  | 3 +++
 specula/processing_objects/windowed_integration.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index f9d8bd4..ca41f24 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -133,6 +133,9 @@ class CCD(BaseProcessingObj):
         if self.dt % self.loop_dt != 0:
             raise ValueError(f'integration time dt={dt} must be a multiple of the basic simulation time_step={simul_params.time_step}')
 
+        # Exposures begin at the first step not earlier than start_time
+        self.start_time = -(-self.start_time // self.loop_dt) * self.loop_dt
+
         # TODO: move this code inside the wfs
         # if wfs and background_level:
         #     # Compute sky background
diff --git a/specula/processing_objects/windowed_integration.py b/specula/processing_objects/windowed_integration.py
index d60585f..a8b5497 100644
--- a/specula/processing_objects/windowed_integration.py
+++ b/specula/processing_objects/windowed_integration.py
@@ -32,6 +32,9 @@ class WindowedIntegration(BaseProcessingObj):
             raise ValueError(f'integration time dt={dt} must be a multiple '
                              f'of the basic simulation time_step={simul_params.time_step}')
 
+        # Windows begin at the first step not earlier than start_time
+        self.start_time = -(-self.start_time // self.loop_dt) * self.loop_dt
+
         self.inputs['input'] = InputValue(type=BaseValue)
 
         self.output = BaseValue(value=self.xp.zeros(n_elem, dtype=self.dtype),
-- 
2.43.0


From 39c50e49e8a8bafa9babea86b5dbfa03f3b278a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:03 +0000
Subject: [PATCH 12/73] fix: binned detector pixels collect the whole flux

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index ca41f24..7cb74b7 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -325,7 +325,8 @@ class CCD(BaseProcessingObj):
 
         if self._binning > 1:
             newshape = (intensity.shape[0] // self._binning, intensity.shape[1] // self._binning)
-            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp)
+            # rebin2d() averages the pixels, while a binned pixel collects all of their flux
+            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp) * self._binning**2
         else:
             self._pixels.pixels[:] = intensity
 
-- 
2.43.0


From 8d88d4d3de1841431a80f1e87301632c4cd1faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 13/73] fix: control filters advance only when a new delta
 command arrives

---
 specula/processing_objects/base_filter.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_filter.py b/specula/processing_objects/base_filter.py
index 1252bb4..eb5e8b1 100644
--- a/specula/processing_objects/base_filter.py
+++ b/specula/processing_objects/base_filter.py
@@ -41,6 +41,9 @@ class BaseFilter(BaseProcessingObj):
 
         self.delta_comm = None
         self._gain_mod = None
+        self._last_delta_time = None
+        self._advance = True
+        self._states_reset = False
 
         # Outputs
         self.out_comm = BaseValue(
@@ -67,6 +70,13 @@ class BaseFilter(BaseProcessingObj):
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
 
+        # The filter advances only when a new delta_comm has arrived: the other inputs
+        # (gain modulation, runtime controls...) can be refreshed on their own.
+        delta_time = self.local_inputs['delta_comm'].generation_time
+        self._advance = delta_time != self._last_delta_time
+        self._last_delta_time = delta_time
+        self._states_reset = False
+
         # Process delta_comm input
         delta_comm = self.local_inputs['delta_comm'].value
         delta_comm_array = self.xp.asarray(delta_comm, dtype=self.dtype)
@@ -82,7 +92,7 @@ class BaseFilter(BaseProcessingObj):
                                f"but filter expects {self._nfilter} inputs")
 
         # Update delay buffer
-        if self.delay > 0:
+        if self.delay > 0 and self._advance:
             self.output_buffer[:, 1:] = self.output_buffer[:, :-1]
 
         # Process gain_mod input
@@ -112,6 +122,10 @@ class BaseFilter(BaseProcessingObj):
         return {'out_comm': OutputDesc(BaseValue, 'Output command vector with delay applied'),
                 'out_comm_no_delay': OutputDesc(BaseValue, 'Output command vector without delay (for POLC)')}
 
+    def trigger(self):
+        if self._advance:
+            super().trigger()
+
     @abstractmethod
     def trigger_code(self):
         """Implement filter-specific computation.
@@ -123,6 +137,10 @@ class BaseFilter(BaseProcessingObj):
     def post_trigger(self):
         super().post_trigger()
 
+        # Nothing to deliver if neither the filter has advanced nor its states have been reset
+        if not self._advance and not self._states_reset:
+            return
+
         # Calculate delayed output with interpolation
         if self.delay == 0:
             output = self.output_buffer[:, 0]
@@ -147,3 +165,4 @@ class BaseFilter(BaseProcessingObj):
     def reset_states(self):
         """Reset filter internal states."""
         self.output_buffer[:] = 0
+        self._states_reset = True
-- 
2.43.0


From 1f4d4662e7d84f31f177f209b1d8d96491321836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 14/73] fix: a filter starting with zero gain honours a gain
 set later

---
 specula/data_objects/iir_filter_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..3147c3c 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -115,6 +115,8 @@ class IirFilterData(BaseDataObj):
         nonzero_gain = np.abs(gain) > 0
         safe_gain = np.where(nonzero_gain, gain, 1.0)
         num_normalized = mynum / safe_gain[:, None]
+        # Filters with a null numerator (zero gain) are proportional once a gain is set
+        num_normalized[~np.any(mynum, axis=1), -1] = 1
         self.gain = self.to_xp(gain, dtype=self.dtype)
         self._num_normalized = self.to_xp(num_normalized, dtype=self.dtype)
         self.zeros = None
-- 
2.43.0


From 701b6aa6b2263cb8517fe1e2b9789b043bef97d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 15/73] fix: report malformed gains instead of aborting the run

---
 specula/processing_objects/dynamic_iir_filter.py | 2 +-
 specula/processing_objects/dynamic_integrator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..1678751 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -91,4 +91,4 @@ class DynamicIntegrator(Integrator):
                 int_gain = float(gain_input.value)
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From a033e68b59eeb9e1419bac3961904fed0f97386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 16/73] fix: ignore gain modulation and commands that have not
 been set yet

---
 specula/processing_objects/base_filter.py                   | 6 ++++--
 .../processing_objects/multirate_complementary_filter.py    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/base_filter.py b/specula/processing_objects/base_filter.py
index eb5e8b1..3ccfd45 100644
--- a/specula/processing_objects/base_filter.py
+++ b/specula/processing_objects/base_filter.py
@@ -41,7 +41,7 @@ class BaseFilter(BaseProcessingObj):
 
         self.delta_comm = None
         self._gain_mod = None
-        self._last_delta_time = None
+        self._last_delta_time = -1
         self._advance = True
         self._states_reset = False
 
@@ -96,7 +96,9 @@ class BaseFilter(BaseProcessingObj):
             self.output_buffer[:, 1:] = self.output_buffer[:, :-1]
 
         # Process gain_mod input
-        if self.local_inputs['gain_mod'] is not None:
+        # (an output that has not been set yet has a value of None)
+        if self.local_inputs['gain_mod'] is not None and \
+           self.local_inputs['gain_mod'].value is not None:
             gain_mod = self.local_inputs['gain_mod'].value
             gain_mod_array = self.xp.asarray(gain_mod, dtype=self.dtype)
             self._gain_mod = self.xp.atleast_1d(gain_mod_array).ravel()
diff --git a/specula/processing_objects/multirate_complementary_filter.py b/specula/processing_objects/multirate_complementary_filter.py
index 8e05127..f80765f 100644
--- a/specula/processing_objects/multirate_complementary_filter.py
+++ b/specula/processing_objects/multirate_complementary_filter.py
@@ -147,7 +147,8 @@ class MultirateComplementaryFilter(BaseFilter):
             self.output_buffer[:, 1:] = self.output_buffer[:, :-1]
 
         # 2. Gain Mod handling (Replicated from BaseFilter)
-        if self.local_inputs['gain_mod'] is not None:
+        if self.local_inputs['gain_mod'] is not None and \
+           self.local_inputs['gain_mod'].value is not None:
             gain_mod = self.local_inputs['gain_mod'].value
             gain_mod_array = self.xp.asarray(gain_mod, dtype=self.dtype)
             self._gain_mod = self.xp.atleast_1d(gain_mod_array).ravel()
-- 
2.43.0


From 0ccf5d299f6409eec3dee81b58197e8db292dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:11 +0000
Subject: [PATCH 17/73] fix: cyclic phase screens wrap around without a jump

When a layer reached the end of its screen its position was reset to zero, so the
turbulence jumped and the overshoot was lost; the up and down propagation lists, which
reach the end at different times, lost their relative offset. Negative winds and negative
time offsets aborted the run. Screens are periodic along the wind axis: wrap the position.
---
 specula/processing_objects/atmo_evolution.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/specula/processing_objects/atmo_evolution.py b/specula/processing_objects/atmo_evolution.py
index 6be78cc..4633da9 100644
--- a/specula/processing_objects/atmo_evolution.py
+++ b/specula/processing_objects/atmo_evolution.py
@@ -332,13 +332,9 @@ class AtmoEvolution(BaseProcessingObj):
         # Update position with delta_position
         new_position = last_position + delta_position  # [pixel]
 
-        # Cycle screens considering the effective position
+        # Cycle screens: they are periodic along the wind axis
         if self.cycle_screens:
-            new_position = np.where(
-                new_position + extra_offset + self.pixel_layer >= self.phasescreens_sizes_array,
-                0,
-                new_position
-            )
+            new_position = new_position % self.phasescreens_sizes_array
 
         # Effective position = accumulated position + constant offset
         effective_position = new_position + extra_offset  # [pixel]
@@ -350,11 +346,14 @@ class AtmoEvolution(BaseProcessingObj):
         for ii, p in enumerate(self.phasescreens):
             pos = int(effective_position_quo[ii])
             ipli = int(self.pixel_layer[ii])
-            ipli_p = int(pos + self.pixel_layer[ii])
+
+            # Columns seen by the layer, continuing from the start after the last one
+            columns = self.xp.arange(pos, pos + ipli + 1) % p.shape[1]
+            strip = p[0:ipli, columns]
 
             # Linear interpolation between positions
-            layer_phase = (1.0 - effective_position_rem[ii]) * p[0:ipli, pos:ipli_p] \
-                        + effective_position_rem[ii] * p[0:ipli, pos + 1:ipli_p + 1]
+            layer_phase = (1.0 - effective_position_rem[ii]) * strip[:, :-1] \
+                        + effective_position_rem[ii] * strip[:, 1:]
 
             # Apply wind direction rotation
             layer_phase = self.xp.rot90(layer_phase, wdi[ii])
-- 
2.43.0


From 25cd7711c0bc4b32bac7f8150c4925cfb4e91ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:32 +0000
Subject: [PATCH 18/73] fix: infinite screens interpolate each axis by its own
 fraction

With an oblique wind both axes were shifted by one whole pixel and blended by the diagonal
length of the two fractions (up to 1.41), so the layer was up to a pixel away from its
position and jumped at pixel crossings. Interpolate bilinearly. A line inserted along one
axis also discarded the line already partially shown along the other one.
---
 specula/data_objects/infinite_phase_screen.py |  7 +++--
 .../atmo_infinite_evolution.py                | 27 ++++++++++++-------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/specula/data_objects/infinite_phase_screen.py b/specula/data_objects/infinite_phase_screen.py
index 8281a24..fe87dc0 100644
--- a/specula/data_objects/infinite_phase_screen.py
+++ b/specula/data_objects/infinite_phase_screen.py
@@ -222,8 +222,11 @@ class InfinitePhaseScreen(BaseDataObj):
             #    self.ndimage_shift(self.full_scrn, [0, 1], self.full_scrn, order=0, mode='constant', cval=0.0, prefilter=False)
             #    self.full_scrn[:, 0] = new_line
         if flush:
-            self.random_data_col = None
-            self.random_data_row = None
+            # The other direction keeps the line it may already have shown
+            if row:
+                self.random_data_row = None
+            else:
+                self.random_data_col = None
 
     @property
     def scrn(self):
diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index e78b4eb..13b266c 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -285,21 +285,28 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
             phase_screen0_all = phase_screen.scrnRawAll
             phase_screen0 = phase_screen.scrnRaw
 
-            # Fractional interpolation
+            # Fractional interpolation: bilinear between the screen and its neighbours
             srf = 1 if frac_rows > 0 else 0
             scf = 1 if frac_cols > 0 else 0
+            weight_rows = np.abs(frac_rows)
+            weight_cols = np.abs(frac_cols)
 
-            if np.abs(frac_rows) > eps:
+            layer_phase = phase_screen0
+            if weight_rows > eps:
                 phase_screen.add_line(1, srf, False)
-            if np.abs(frac_cols) > eps:
+                layer_phase = (1.0 - weight_rows) * phase_screen0 \
+                            + weight_rows * phase_screen.scrnRaw
+            if weight_cols > eps:
+                phase_screen01_all = phase_screen.scrnRawAll
+                phase_screen.full_scrn = phase_screen0_all
                 phase_screen.add_line(0, scf, False)
-
-            phase_screen1 = phase_screen.scrnRaw
-            interpfactor = np.sqrt(frac_rows**2 + frac_cols**2)
-
-            # Use the buckup to compute the interpolated phase
-            layer_phase = interpfactor * phase_screen1 \
-                        + (1.0 - interpfactor) * phase_screen0
+                layer_phase_cols = phase_screen.scrnRaw
+                if weight_rows > eps:
+                    phase_screen.full_scrn = phase_screen01_all
+                    phase_screen.add_line(0, scf, False)
+                    layer_phase_cols = (1.0 - weight_rows) * layer_phase_cols \
+                                     + weight_rows * phase_screen.scrnRaw
+                layer_phase = (1.0 - weight_cols) * layer_phase + weight_cols * layer_phase_cols
 
             # Restore the original state for the next direction
             phase_screen.full_scrn = phase_screen0_all
-- 
2.43.0


From bc8222500910270685a1c7353e7f72e8c5fe7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:03 +0000
Subject: [PATCH 19/73] fix: uplink layers of infinite screens keep their own
 time offset

The upward list was advanced by a whole step from the screens already moved by the downward
one, and restored afterwards, so its time offset was visible in the first step only (and the
downward list moved twice per step when its offset was the larger one).
---
 .../atmo_infinite_evolution_up_down.py        | 71 ++++++-------------
 1 file changed, 21 insertions(+), 50 deletions(-)

diff --git a/specula/processing_objects/atmo_infinite_evolution_up_down.py b/specula/processing_objects/atmo_infinite_evolution_up_down.py
index d2a4c1e..0426de4 100644
--- a/specula/processing_objects/atmo_infinite_evolution_up_down.py
+++ b/specula/processing_objects/atmo_infinite_evolution_up_down.py
@@ -134,58 +134,29 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
 
         delta_position = wind_speed * self.delta_time / self.pixel_pitch
 
-        # Determine which direction to process first based on extra_delta_time
-        # Process the one with smaller extra_delta_time first (earlier in time)
-        down_first = np.all(self.extra_delta_time_down <= self.extra_delta_time_up)
-
-        if down_first:
-            # Process down first, save state, then process up
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_down, self.last_position,
-                self.last_effective_position, self.acc_rows, self.acc_cols,
-                self.layer_list_down
-            )
-
-            # Save state
-            saved_states = self._save_phase_screen_states()
-
-            # Process up
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_up, self.last_position_up,
-                self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
-                self.layer_list_up
-            )
-
-            # Restore down state (keep phase screens at down position)
-            self._restore_phase_screen_states(saved_states)
-        else:
-            # Process up first, save state, then process down
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_up, self.last_position_up,
-                self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
-                self.layer_list_up
-            )
-
-            # Save state
-            saved_states = self._save_phase_screen_states()
+        # Advance the screens along the downward propagation
+        self._process_propagation_direction(
+            wind_speed, wind_direction, delta_position,
+            self.extra_delta_time_down, self.last_position,
+            self.last_effective_position, self.acc_rows, self.acc_cols,
+            self.layer_list_down
+        )
 
-            # Process down
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_down, self.last_position,
-                self.last_effective_position, self.acc_rows, self.acc_cols,
-                self.layer_list_down
-            )
+        saved_states = self._save_phase_screen_states()
+
+        # The upward propagation is displaced from where the screens are now
+        self.last_effective_position_up[:] = self.last_effective_position
+        self.acc_rows_up[:] = self.acc_rows
+        self.acc_cols_up[:] = self.acc_cols
+        self._process_propagation_direction(
+            wind_speed, wind_direction, delta_position,
+            self.extra_delta_time_up, self.last_position_up,
+            self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
+            self.layer_list_up
+        )
 
-            # Restore up state (keep phase screens at up position)
-            # Actually, we want to keep them at down, so restore anyway
-            # No, we should keep the "later" state for next frame
-            # Let's always keep down state
-            if not down_first:
-                pass  # Already at down state
+        # Keep the phase screens at the down position
+        self._restore_phase_screen_states(saved_states)
 
         self.last_t = self.current_time
 
-- 
2.43.0


From 24e323da3f14cc309dbf5f05625b5623720d1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:30 +0000
Subject: [PATCH 20/73] fix: malformed interactive inputs are ignored and
 silent input tasks do not block exit

An item that is not a (name, value) pair aborted the run, and an input task still waiting
for its user (like the terminal prompt) was joined at exit, so the program never ended.
---
 specula/processing_objects/specula_input.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/specula_input.py b/specula/processing_objects/specula_input.py
index 86172de..5704b3a 100644
--- a/specula/processing_objects/specula_input.py
+++ b/specula/processing_objects/specula_input.py
@@ -45,7 +45,8 @@ class SpeculaInput(BaseProcessingObj):
         output name and output value.
         """
         self.q = mp.Queue()
-        self.p = mp.Process(target=task, args=(self.q,))
+        # daemon, or a task waiting for its user would keep the program from exiting
+        self.p = mp.Process(target=task, args=(self.q,), daemon=True)
         self.p.start()
 
     def trigger_code(self):
@@ -58,13 +59,16 @@ class SpeculaInput(BaseProcessingObj):
         """
         try:
             while True:
-                name, value = self.q.get(block=False)
+                item = self.q.get(block=False)
                 try:
+                    name, value = item
                     # Replace value directly instead of using set_value
                     # so that we can accept any valid type instead of just numeric ones
                     self.outputs[name].value = value
                     self.outputs[name].generation_time = self.current_time
                 except KeyError:
                     print('Unknown output', name)
+                except (TypeError, ValueError):
+                    print('Malformed input', item)
         except queue.Empty:
             pass
-- 
2.43.0


From f047b044decfe1c75b8ac913b22be9c58f31211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 21/73] fix: malformed interactive commands no longer abort the
 dynamic calibrators

The exception handlers themselves failed (exceptions have no __name__), failed saves were
not handled, a bare save request (value False from the terminal) was not a valid file name,
a zero integration time raised at the next step, an unset one at the first step, and
in_output_tag was ignored.
---
 .../dynamic_dark_calibrator.py                | 12 +++++---
 .../dynamic_pyr_pupdata_calibrator.py         | 28 ++++++++++++++-----
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..785edaf 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -193,7 +193,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_load = self.local_inputs['in_load']
@@ -205,19 +205,23 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 self.darkframe.restore(fullpath)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
 
         input_save = self.local_inputs['in_save']
         if input_save is not None and input_save.generation_time == self.current_time:
-            self.save(input_save.value)
+            # Interactive inputs are protected from exceptions
+            try:
+                self.save(input_save.value)
+            except Exception as e:
+                print(f'Exception: {type(e).__name__}: {e}')
 
     def save(self, filename=None):
         """Save dark frame data to disk as a FITS file"""
 
-        if filename is None:
+        if not filename:
             filename = utils.make_tn()
 
         if not filename.endswith('.fits'):
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..57873a0 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -127,30 +127,40 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             # Use float() to accept string values as well
             input_dt = self.local_inputs['in_dt']
             if input_dt is not None and input_dt.generation_time == self.current_time:
-                self.dt = self.seconds_to_t(float(input_dt.value))
+                dt = self.seconds_to_t(float(input_dt.value))
+                if dt <= 0:
+                    raise ValueError(f'dt (integration time) is {input_dt.value} and must be greater than zero')
+                self.dt = dt
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
+
+        input_tag = self.local_inputs['in_output_tag']
+        if input_tag is not None and input_tag.generation_time == self.current_time:
+            if isinstance(input_tag.value, str) and input_tag.value:
+                self.filename = input_tag.value
+            else:
+                print(f'Invalid output tag: {input_tag.value}')
 
     def trigger_code(self):
 
         try:
             super().trigger_code()
             self.status_string = 'OK'
-        except (ValueError, TypeError) as e:
+        except Exception as e:
             # Skip iterations in case of errors
             self.status_string = f'{e.__class__.__name__}: {e}'
 
@@ -160,11 +170,15 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         # Save pupdata if requested
         input_save = self.local_inputs['in_save']
         if input_save is not None and input_save.generation_time == self.current_time:
-            self._save(input_save.value)
+            try:
+                # A bare request saves to the current output tag
+                self._save(input_save.value or self.filename)
+            except Exception as e:
+                print(f'Exception: {type(e).__name__}: {e}')
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': self.t_to_seconds(self.dt) if self.dt is not None else None,
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From 40df2b69b536cb8eee4be559d5a8771facfeb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:04 +0000
Subject: [PATCH 22/73] fix: commands to the dynamic pupil calibrator do not
 integrate the last frame again

---
 .../dynamic_pyr_pupdata_calibrator.py                 | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 57873a0..39bf0e8 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -104,6 +104,9 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         self.outputs['out_params'] = BaseValue()
 
+        self.last_frame_time = None
+        self.status_string = ''
+
     @classmethod
     def input_names(cls):
         return {'in_i': InputDesc(Intensity, 'Input intensity from the pyramid WFS detector (optional)'),
@@ -157,6 +160,14 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
     def trigger_code(self):
 
+        # Commands can arrive without a new frame: do not integrate the last one again
+        frame = self.local_inputs['in_i']
+        if frame is None:
+            frame = self.local_inputs['in_pixels']
+        if frame.generation_time == self.last_frame_time:
+            return
+        self.last_frame_time = frame.generation_time
+
         try:
             super().trigger_code()
             self.status_string = 'OK'
-- 
2.43.0


From bf9e877729570f46ed935053adbbaed9d2872158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:21 +0000
Subject: [PATCH 23/73] fix: dark acquisitions survive commands arriving while
 they run

Loading a dark had no effect (restore() returns a new object). A second trigger kept the
frames of the acquisition in progress, a change of the number of frames during one changed
its normalisation, commands arriving without a new frame integrated the last frame again,
and a reset did not refresh the output.
---
 .../dynamic_dark_calibrator.py                | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 785edaf..005ba0d 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.requested_frames = 0
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -155,7 +156,11 @@ class DynamicDarkCalibrator(BaseProcessingObj):
 
     def trigger_code(self):
         """Main calibration function"""
-        
+
+        # Commands can arrive without a new frame
+        if self.local_inputs['in_pixels'].generation_time != self.current_time:
+            return
+
         value = self.local_inputs['in_pixels'].pixels
 
         self.subtracted_pixels.pixels = value - self.darkframe.pixels
@@ -168,23 +173,14 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.requested_frames).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
-            self.integrated_pixels *= 0
+            self.integrated_pixels[:] = 0
 
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
 
-        # Check if new trigger or nframes value is received at this time step
-        input_trigger = self.local_inputs['in_trigger']
-        if input_trigger is not None and input_trigger.generation_time == self.current_time:
-            self.counter = self.nframes
-
-        input_reset = self.local_inputs['in_reset']
-        if input_reset is not None and input_reset.generation_time == self.current_time:
-            self.darkframe.pixels *= 0
-
-        # Interactive inputs are protected frome exceptions
+        # Interactive inputs are protected from exceptions
         try:
             input_nframes = self.local_inputs['in_nframes']
             if input_nframes is not None and input_nframes.generation_time == self.current_time:
@@ -195,6 +191,18 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
+        # A trigger starts a new acquisition, dropping the one in progress if any
+        input_trigger = self.local_inputs['in_trigger']
+        if input_trigger is not None and input_trigger.generation_time == self.current_time:
+            self.requested_frames = self.nframes
+            self.counter = self.requested_frames
+            self.integrated_pixels[:] = 0
+
+        input_reset = self.local_inputs['in_reset']
+        if input_reset is not None and input_reset.generation_time == self.current_time:
+            self.darkframe.pixels[:] = 0
+            self.darkframe.generation_time = self.current_time
+
         try:
             input_load = self.local_inputs['in_load']
             if input_load is not None and input_load.generation_time == self.current_time:
@@ -202,7 +210,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                dark = Pixels.restore(fullpath, target_device_idx=self.target_device_idx)
+                self.darkframe.set_value(dark.pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From 7e4a1084b5e0151a136c2c6e7595cb79ef5e470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 24/73] fix: a command before the first frame does not run the
 pupil calibrator on a frame never delivered

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 39bf0e8..cecdaec 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -104,7 +104,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         self.outputs['out_params'] = BaseValue()
 
-        self.last_frame_time = None
+        self.last_frame_time = -1      # generation time of a frame never delivered
         self.status_string = ''
 
     @classmethod
-- 
2.43.0


From 8d7005f88b3eb6098e1eef9a61bb3474b4c95969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:45 +0000
Subject: [PATCH 25/73] fix: display server replies keep their order and slow
 simulations keep their server

Two threads of the server read the same queue and gave back the items meant for
the other one, changing their order; after 60 s without a status report the server
shut down even if the simulation was still running.
---
 specula/lib/display_server_api.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/specula/lib/display_server_api.py b/specula/lib/display_server_api.py
index 2012b6b..669c90e 100755
--- a/specula/lib/display_server_api.py
+++ b/specula/lib/display_server_api.py
@@ -159,6 +159,7 @@ class FlaskServer:
         self.params_dict = params_dict
         self.t0 = {}
         self.status_queue = status_queue
+        self.response_queue = status_queue
         self.request_queue = request_queue
         self.plotters = {}
         self.display_lock = threading.Lock()
@@ -182,6 +183,10 @@ class FlaskServer:
         raise NotImplementedError("Subclasses must implement register_additional_response_handlers method")
     
     def run(self):
+        # Only handle_responses() reads the queue coming from the simulation and passes
+        # the status items on. If two threads read it, giving back the items for the
+        # other thread, replies would be reordered.
+        self.status_queue = queue.Queue()
         t = threading.Thread(target=self.status_update, args=(sio,))
         t.start()
 
@@ -236,9 +241,11 @@ class FlaskServer:
                     time.sleep(0.001)
                     
             except queue.Empty:
-                # After 60 seconds of inactivity, we assume
-                # that the simulation has ended and we can shut down the server.
-                break
+                # After 60 seconds of inactivity, shut down the server
+                # unless the simulation is still running (just slowly).
+                parent = mp.parent_process()
+                if parent is None or not parent.is_alive():
+                    break
             except EOFError:
                 # This can happen if the main process has ended and closed the queue.
                 # In that case, we should also shut down the server.
@@ -250,7 +257,7 @@ class FlaskServer:
     def handle_responses(self):
         while True:
             try:
-                item = self.status_queue.get(timeout=1)
+                item = self.response_queue.get(timeout=1)
 
                 if isinstance(item, tuple) and len(item) == 2:
                     self.status_queue.put(item)
@@ -273,6 +280,10 @@ class FlaskServer:
                     
             except queue.Empty:
                 continue
+            except EOFError:
+                # The main process has ended and closed the queue: shut down the server.
+                self.status_queue.put((None, None))
+                break
             except Exception as e:
                 print(f"[SERVER][{self.__class__.__name__}] Error in response handler: {e}")
                 import traceback
-- 
2.43.0


From 8cc6f762fde80a1e617e2d6be44db8f50e670e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:45 +0000
Subject: [PATCH 26/73] fix: a display server block runs after the objects that
 it shows

---
 specula/simul.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index 6fef55d..3f0e0e7 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -1154,6 +1154,9 @@ class Simul():
             if name not in self.remote_objs_ranks:
                 obj = self.objs[name]
                 if isinstance(obj, BaseProcessingObj):
+                    # A display server must not run together with the objects that it shows
+                    if obj.__class__.__name__ == 'DisplayServer':
+                        idx = max(self.trigger_order_idx) + 1
                     self.loop.add(obj, idx)
         
         self.loop.max_global_order = max(self.trigger_order_idx)
@@ -1164,7 +1167,7 @@ class Simul():
             from specula.processing_objects.display_server import DisplayServer
             disp = DisplayServer(params, self.input_ref, self.output_ref, self.get_info)
             self.objs['display_server'] = disp
-            self.loop.add(disp, idx+1)
+            self.loop.add(disp, max(self.trigger_order_idx) + 1)
             disp.name = 'display_server'
 
         # Run simulation loop
-- 
2.43.0


From 536e2c52de346520f1ff9c4c068a91dbccfc7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:00 +0000
Subject: [PATCH 27/73] fix: objects that cannot be serialised for display keep
 their array module

---
 specula/processing_objects/display_server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/display_server.py b/specula/processing_objects/display_server.py
index 7521a52..8070f13 100644
--- a/specula/processing_objects/display_server.py
+++ b/specula/processing_objects/display_server.py
@@ -375,8 +375,10 @@ def remove_xp_np(obj):
             setattr(obj, k, v)
 
     deleted = _remove(obj)    
-    yield obj
-    _putback((obj, deleted))
+    try:
+        yield obj
+    finally:
+        _putback((obj, deleted))
 
 
 def encode(fig):
-- 
2.43.0


From e23c70a10a88717e1c45611b4dcd090aba777113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:00 +0000
Subject: [PATCH 28/73] fix: the display server never keeps a finished or
 interrupted simulation from exiting

---
 specula/processing_objects/display_server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/display_server.py b/specula/processing_objects/display_server.py
index 8070f13..a4b47e7 100644
--- a/specula/processing_objects/display_server.py
+++ b/specula/processing_objects/display_server.py
@@ -64,7 +64,8 @@ class DisplayServer(BaseProcessingObj):
                 host, 
                 port,
                 self.mode
-            )
+            ),
+            daemon=True     # Never outlives the simulation, even if it is interrupted
         )
         
         self.p.start()
@@ -342,6 +343,10 @@ class DisplayServer(BaseProcessingObj):
             self.p.join()
             print(f"[DisplayServer] Server process terminated")
 
+        # Nobody reads the replies anymore: do not wait for them when the program exits
+        if hasattr(self, 'qout'):
+            self.qout.cancel_join_thread()
+
 
 @contextmanager
 def remove_xp_np(obj):
-- 
2.43.0


From 1d1d0ac302bdfb8567f5c840789fbfe397e98687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 29/73] fix: MPI messages describe their content, so outputs
 can change type, shape or scale, be lists, or be read twice

The receiver guessed whether the next message was a pickled object or a
buffer, and of which shape and type, from its own copy of the data. The two
sides disagreed (truncated or unreceived messages) when an output changed
shape or type after the first send, e.g. double precision modes computed in
a single precision simulation, when an unset output was connected twice to
the same input, and for outputs that are lists of data objects.
---
 specula/base_processing_obj.py | 57 ++++++++++++++++++++++------------
 specula/connections.py         | 40 +++++++++++++-----------
 2 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 13d2721..e28b0e8 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -154,27 +154,46 @@ class BaseProcessingObj(BaseTimeObj):
             if self.cuda_graph:
                 self.stream.synchronize()
 
-    def send_remote_output(self, item, dest_rank, dest_tag, first_mpi_send=True, out_name=''):
-        if MPI_SEND_DBG: print(process_rank, f'SEND to rank {dest_rank} {dest_tag=} {(dest_tag in self.sent_valid)=} (from {self.name}.{out_name})', flush=True)
-        if first_mpi_send or not dest_tag in self.sent_valid:
+    def send_remote_output(self, item, dest_rank, dest_tag, first_mpi_send=True, out_name='', connection=0):
+        '''
+        Send an output item via MPI. Each data message (with tag *dest_tag*) is preceded
+        by a header (with tag *dest_tag+1*) telling the receiver how to get it:
+
+        - None: the whole data object follows, pickled. This is done for the first valid data,
+          each time something else than the data values has changed (shape, type, scalings...),
+          and for lists of data objects
+        - otherwise, the generation time: only the data values follow, as an MPI buffer
+        '''
+        key = (dest_tag, connection)
+        if MPI_SEND_DBG: print(process_rank, f'SEND to rank {dest_rank} {dest_tag=} {(key in self.sent_valid)=} (from {self.name}.{out_name})', flush=True)
+        buffer = None if isinstance(item, list) else item.get_value()
+        layout = None
+        if buffer is not None:
+            # MPI needs a contiguous buffer, while outputs can be views of larger arrays.
+            # Data is always sent in C order, independently from the local memory layout.
+            buffer = np.ascontiguousarray(cpuArray(buffer))
+            layout = {k: v for k, v in vars(item).items()
+                      if isinstance(v, (bool, int, float, complex, str, np.generic)) and k != 'generation_time'}
+            layout.update(buffer_shape=buffer.shape, buffer_dtype=buffer.dtype)
+
+        if first_mpi_send or layout is None or self.sent_valid.get(key) != layout:
             if MPI_SEND_DBG: print(process_rank, 'SEND with Pickle', dest_tag, flush=True)
-            xp_orig = item.xp
-            item.xp = 0            
+            process_comm.ibsend(None, dest=dest_rank, tag=dest_tag+1)
+            # workaround because module objects cannot be pickled
+            items = item if isinstance(item, list) else [item]
+            xp_orig = [x.xp for x in items]
+            for x in items:
+                x.xp = 0
             process_comm.ibsend(item, dest=dest_rank, tag=dest_tag)
-            item.xp = xp_orig
+            for x, xp in zip(items, xp_orig):
+                x.xp = xp
         else:
-            buffer = item.get_value()
-            if MPI_SEND_DBG:  print(process_rank, dest_tag, 'SEND .device', buffer.device)
             if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer', dest_tag, type(buffer), buffer, flush=True)
             if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer type', dest_tag, buffer.dtype, flush=True)
-
-            # MPI needs a contiguous buffer, while outputs can be views of larger arrays.
-            # Data is always sent in C order, independently from the local memory layout.
-            process_comm.Ibsend(np.ascontiguousarray(cpuArray(buffer)), dest=dest_rank, tag=dest_tag)
-
             process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
-        if item.get_value() is not None:
-            self.sent_valid[dest_tag] = True
+            process_comm.Ibsend(buffer, dest=dest_rank, tag=dest_tag)
+        if layout is not None:
+            self.sent_valid[key] = layout
 
     # this method implements the mpi send call of the outputs connected to remote inputs
     def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
@@ -184,7 +203,7 @@ class BaseProcessingObj(BaseTimeObj):
             Used during the last iteration when the simulation is ending and
             no one would receive the delayed inputs.
         If *delayed_only* is True, only send the delayed outputs.
-            Used while setting up the simulation, to initialize outputs
+            Used before setting up the simulation, to initialize outputs
             that are delayed and thus would not be received otherwise.
         '''
         if MPI_DBG:
@@ -194,7 +213,7 @@ class BaseProcessingObj(BaseTimeObj):
 
         if MPI_DBG: print(process_rank, 'send_outputs', flush=True)
         for out_name, remote_specs in self.remote_outputs.items():
-            for remote_spec in remote_specs:
+            for connection, remote_spec in enumerate(remote_specs):
                 dest_rank, dest_tag, delay = remote_spec
                 # avoid sending outputs that will not be received
                 # because the simulation is ending
@@ -205,9 +224,7 @@ class BaseProcessingObj(BaseTimeObj):
                     if MPI_SEND_DBG: print(process_rank, f'SKIPPED SEND to rank {dest_rank} {dest_tag=} due to delay={delay}', flush=True)
                     continue
                 if MPI_DBG: print(process_rank, 'Sending ', out_name, 'to ', dest_rank, 'with tag',  dest_tag, type(self.outputs[out_name]), flush=True)
-                # workaround because module objects cannot be pickled
-                for item in self.outputs[out_name] if isinstance(self.outputs[out_name], list) else [self.outputs[out_name]]:
-                    self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send, out_name)
+                self.send_remote_output(self.outputs[out_name], dest_rank, dest_tag, first_mpi_send, out_name, connection)
 
     @classmethod
     def device_stream(cls, target_device_idx):
diff --git a/specula/connections.py b/specula/connections.py
index 21994f5..2c6c510 100644
--- a/specula/connections.py
+++ b/specula/connections.py
@@ -28,31 +28,38 @@ class _InputItem():
         self.requesting_obj_name = requesting_obj_name
         self.input_name = input_name
 
-    def receive_new_value(self, first_mpi_receive=True):
+    def receive_new_value(self, target_device_idx):
         if MPI_SEND_DBG: print(process_rank,
                                f'RECV from rank {self.remote_rank} {self.tag=} type={self.output_ref_type})',
                                flush=True)
-        if first_mpi_receive or self.cloned_value.get_value() is None:
+        # The header tells what is coming, see BaseProcessingObj.send_remote_output()
+        gen_time = process_comm.recv(source=self.remote_rank, tag=self.tag+1)
+        if gen_time is None:
             if MPI_SEND_DBG: print(process_rank, f'recv with Pickle', self.tag, flush=True)
             new_value = process_comm.recv(source=self.remote_rank, tag=self.tag)
-            if new_value.xp_str == 'cp':
-                new_value.xp = cp
+            new_items = []
+            for item in flatten([new_value]):
+                if item.xp_str == 'cp':
+                    item.xp = cp
+                else:
+                    item.xp = np
+                new_items.append(item.copyTo(target_device_idx))
+            old_items = list(flatten([self.cloned_value]))
+            if self.cloned_value is None or len(old_items) != len(new_items):
+                self.cloned_value = new_items if isinstance(new_value, list) else new_items[0]
             else:
-                new_value.xp = np
+                # Keep the same objects, someone can have a reference to them
+                for old, new in zip(old_items, new_items):
+                    vars(old).update(vars(new))
         else:
             if MPI_SEND_DBG: print(process_rank, f'Recv with Buffer', flush=True)
-            new_value = self.cloned_value
             buffer = np.empty_like(cpuArray(self.cloned_value.get_value()), order='C')
             if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer', type(buffer))
             if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer dtype', buffer.dtype)
             process_comm.Recv(buffer, source=self.remote_rank, tag=self.tag)
-            if MPI_SEND_DBG:  print(process_rank, self.tag+1, 'RECV .bufftimeer')
-            gen_time = process_comm.recv(source=self.remote_rank, tag=self.tag+1)
             self.cloned_value.generation_time = gen_time
             self.cloned_value.set_value(buffer)
 
-        return new_value
-
     def get(self, target_device_idx):
         if self.remote_rank is None:
             if self.output_ref is None:
@@ -63,15 +70,12 @@ class _InputItem():
                 self.cloned_value = self.output_ref
                 return self.cloned_value
 
-        if self.remote_rank is None:
-            value = self.output_ref
-        else:
-            value = self.receive_new_value(first_mpi_receive=self.cloned_value is None)
-
-        if self.cloned_value is None:
-            self.cloned_value = value.copyTo(target_device_idx)
+        if self.remote_rank is not None:
+            self.receive_new_value(target_device_idx)
+        elif self.cloned_value is None:
+            self.cloned_value = self.output_ref.copyTo(target_device_idx)
         else:
-            value.transferDataTo(self.cloned_value)
+            self.output_ref.transferDataTo(self.cloned_value)
         return self.cloned_value
 
 
-- 
2.43.0


From 056692ed3de7247b72ad41041e335c122bbc5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 30/73] fix: send outputs to the setup() of remote readers
 after the setup() of their producer

With a single process, setup() is done in trigger order, and objects like
PhaseFlattening resize their outputs there. Remote readers were given the
outputs as they were before any setup().
---
 specula/loop_control.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 9f78415..7eb7a35 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -80,7 +80,9 @@ class LoopControl(BaseTimeObj):
         for i in sorted(self.trigger_lists.keys()):        
             # all the objects having this trigger order could be remote            
             for element in self.trigger_lists[i]:
-                element.send_outputs(skip_delayed=False, first_mpi_send=True)
+                # only delayed outputs: the others are sent after setup(), which
+                # can change them, and before the setup() of the objects using them
+                element.send_outputs(delayed_only=True, first_mpi_send=True)
 
         if process_comm is not None:
             process_comm.barrier()
@@ -104,8 +106,9 @@ class LoopControl(BaseTimeObj):
                     if MPI_DBG: print(process_rank, 'setup', element)
                     #  workaround for objects that need to send outputs
                     # before the first iter() call
-                    # because their outputs are used with ":-1"
-                    element.send_outputs(delayed_only=True, first_mpi_send=False)
+                    # because their outputs are used with ":-1",
+                    # or by the setup() of objects on other ranks
+                    element.send_outputs(first_mpi_send=False)
                 except:
                     print('Exception in', element.name, flush=True)
                     raise
-- 
2.43.0


From 9983bdeb4593cdb135168594574f94675f0c353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 31/73] fix: pickle data stores kept times as floats and read
 their inputs again when saving

Times in ns were rounded to the floating point precision of the simulation
(float32 merges samples), and inputs on another MPI rank were waited for
once more after the end of the run.
---
 specula/processing_objects/data_store.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..5b2ef7d 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -123,20 +123,21 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
 
         for k, v in times.items():
             try:
-                if k not in self.inputs or self.inputs[k] is None:
+                if k not in self.local_inputs or self.local_inputs[k] is None:
                     if self.verbose:
-                        print(f"Warning: skipping key '{k}' - not in inputs or value is None")
+                        print(f"Warning: skipping key '{k}'"
+                              f"- not in local_inputs or value is None")
                     continue
 
                 filename = os.path.join(self.tn_dir, k + '.pickle')
-                hdr = self.inputs[k].get(target_device_idx=-1).get_fits_header()
+                hdr = self.local_inputs[k].get_fits_header()
                 self.update_header_with_storage_metadata(hdr, input_name=k)
                 with open(filename, 'wb') as handle:
                     data_to_save = {'data': data[k], 'times': times[k], 'hdr': hdr}
-- 
2.43.0


From 0248e2d1f7a4d5e90d47358dbcdf96841957580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 32/73] fix: the last step of a data store was counted twice

The additional trigger done by finalize() counted the same samples again
for the downsampling, so an unwanted sample could be stored, and counted as
an iteration of the split.
---
 specula/processing_objects/data_store.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 5b2ef7d..eb95071 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,8 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.last_sample_time = {}
+        self.finalizing = False
         self.init_storage()
 
     @classmethod
@@ -215,12 +217,22 @@ class DataStore(BaseProcessingObj):
 
         for k, item in self.local_inputs.items():
             if item is not None and item.generation_time == self.current_time:
-                if not self._should_store_input(k):
-                    continue
+                if self.last_sample_time.get(k) == self.current_time:
+                    # Same sample as before, seen again by finalize(): it can have been updated
+                    if k not in self.storage or self.current_time not in self.storage[k]:
+                        continue
+                else:
+                    self.last_sample_time[k] = self.current_time
+                    if not self._should_store_input(k):
+                        continue
                 value = item.get_value()
                 v = cpuArray(value, force_copy=True)
                 self.storage[k][self.current_time] = v
 
+        # The additional trigger done by finalize() is not a new iteration
+        if self.finalizing:
+            return
+
         # If we are saving a split TN, check whether it is time to save a new chunk
         # In case, clear the storage dictionary to restart with an empty one.
         self.iter_counter += 1
@@ -252,6 +264,7 @@ class DataStore(BaseProcessingObj):
 
         # Perform an additional trigger to ensure all data is captured,
         # including any calculations done in other objects' finalize() methods
+        self.finalizing = True
         self.trigger_code()
 
         if self.split_size == 0:
-- 
2.43.0


From 1433cc3a721be41eb82a3bd787a663d156c7f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 33/73] fix: samples after the last complete chunk of a split
 data store were lost

---
 specula/processing_objects/data_store.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index eb95071..c83a652 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -273,6 +273,11 @@ class DataStore(BaseProcessingObj):
             else:
                 os.makedirs(self.tn_dir_orig,exist_ok=True)
             self.save()
+        elif any(len(v) > 0 for v in self.storage.values()):
+            # Samples after the last complete chunk
+            start = self.iter_counter - self.iter_counter % self.split_size
+            self.create_TN_folder(suffix=f'_{start + self.first_suffix}')
+            self.save()
 
     def check_input_names(self):
         # DataStore inputs are added dynamically via input_list;
-- 
2.43.0


From 772c4032a2ff769c39d37cf2942711fd6907a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 34/73] fix: an object failing in finalize() prevented the
 others from saving their results

---
 specula/loop_control.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 7eb7a35..2874ab4 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -174,12 +174,18 @@ class LoopControl(BaseTimeObj):
 
     def finish(self):
 
+        # A failure must not prevent the other objects from saving their results
+        first_exception = None
         for i in sorted(self.trigger_lists.keys()):
             for element in self.trigger_lists[i]:
                 try:
                     element.finalize()
-                except:
+                except Exception as e:
                     print('Exception in', element.name)
-                    raise
+                    if first_exception is None:
+                        first_exception = e
+
+        if first_exception is not None:
+            raise first_exception
 
 
-- 
2.43.0


From f1d133a2f78226b20d93f5c9574be2b755ed54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 35/73] fix: data stores lost data silently or overwrote other
 runs

- errors while saving were only printed in verbose mode, which data stores
  cannot be configured with
- one output that cannot be represented (e.g. changing shape) lost all of them
- a failure to write the parameter files or to create the directory of a chunk
  aborted the whole run
- the run directory was checked and created in two steps: two runs started in
  the same second could share it or abort
---
 specula/processing_objects/data_store.py | 51 ++++++++++++++----------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index c83a652..d97da47 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -127,8 +127,6 @@ class DataStore(BaseProcessingObj):
     def save_pickle(self):
         times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-        data = {k: np.array(list(v.values()), dtype=self.dtype)
-            for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
 
         for k, v in times.items():
             try:
@@ -138,16 +136,16 @@ class DataStore(BaseProcessingObj):
                               f"- not in local_inputs or value is None")
                     continue
 
+                data = np.array(list(self.storage[k].values()), dtype=self.dtype)
                 filename = os.path.join(self.tn_dir, k + '.pickle')
                 hdr = self.local_inputs[k].get_fits_header()
                 self.update_header_with_storage_metadata(hdr, input_name=k)
                 with open(filename, 'wb') as handle:
-                    data_to_save = {'data': data[k], 'times': times[k], 'hdr': hdr}
+                    data_to_save = {'data': data, 'times': times[k], 'hdr': hdr}
                     pickle.dump(data_to_save, handle, protocol=pickle.HIGHEST_PROTOCOL)
 
             except Exception as e:
-                if self.verbose:
-                    print(f"Error saving pickle file for key '{k}': {str(e)}")
+                print(f"Error saving pickle file for key '{k}': {str(e)}")
                 continue
 
     def save_params(self):
@@ -170,8 +168,6 @@ class DataStore(BaseProcessingObj):
     def save_fits(self):
         times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict)}
-        data = {k: np.array(list(v.values()), dtype=self.dtype)
-            for k, v in self.storage.items() if isinstance(v, OrderedDict)}
 
         for k,v in times.items():
             try:
@@ -185,14 +181,14 @@ class DataStore(BaseProcessingObj):
                 hdr = self.local_inputs[k].get_fits_header()
                 self.update_header_with_storage_metadata(hdr, input_name=k)
                 hdu_time = fits.ImageHDU(times[k], header=hdr)
-                hdu_data = fits.PrimaryHDU(data[k], header=hdr)
+                data = np.array(list(self.storage[k].values()), dtype=self.dtype)
+                hdu_data = fits.PrimaryHDU(data, header=hdr)
                 hdul = fits.HDUList([hdu_data, hdu_time])
                 hdul.writeto(filename, overwrite=True)
                 hdul.close()  # Force close for Windows
 
             except Exception as e:
-                if self.verbose:
-                    print(f"Error saving FITS file for key '{k}': {str(e)}")
+                print(f"Error saving FITS file for key '{k}': {str(e)}")
                 continue
 
     def create_TN_folder(self, suffix=''):
@@ -202,9 +198,12 @@ class DataStore(BaseProcessingObj):
             fullpath = os.path.join(self.tn_dir_orig, tn) + suffix
             if iter is not None:
                 fullpath += f'.{iter}'
-            if not os.path.exists(fullpath):
+            try:
+                # Atomic: another run can be trying the same name
                 os.makedirs(fullpath)
                 break
+            except FileExistsError:
+                pass
             if iter is None:
                 iter = 0
             else:
@@ -225,8 +224,12 @@ class DataStore(BaseProcessingObj):
                     self.last_sample_time[k] = self.current_time
                     if not self._should_store_input(k):
                         continue
-                value = item.get_value()
-                v = cpuArray(value, force_copy=True)
+                try:
+                    value = item.get_value()
+                    v = cpuArray(value, force_copy=True)
+                except Exception as e:
+                    print(f"Error storing a sample of '{k}' at t={self.current_time}: {str(e)}")
+                    continue
                 self.storage[k][self.current_time] = v
 
         # The additional trigger done by finalize() is not a new iteration
@@ -238,10 +241,7 @@ class DataStore(BaseProcessingObj):
         self.iter_counter += 1
         if self.split_size > 0:
             if self.iter_counter % self.split_size == 0:
-                self.create_TN_folder(
-                    suffix=f'_{self.iter_counter - self.split_size + self.first_suffix}'
-                )
-                self.save()
+                self.save_chunk(self.iter_counter - self.split_size)
                 self.init_storage()
 
     def setup(self):
@@ -251,8 +251,19 @@ class DataStore(BaseProcessingObj):
             if item is not None and not hasattr(item, 'get_value'):
                 raise TypeError(f"Error: don't know how to buffer an object of type {type(item)}")
 
+    def save_chunk(self, start):
+        try:
+            self.create_TN_folder(suffix=f'_{start + self.first_suffix}')
+        except OSError as e:
+            print(f'Error: {self.name} cannot create a directory for the chunk at iteration {start}: {e}')
+            return
+        self.save()
+
     def save(self):
-        self.save_params()
+        try:
+            self.save_params()
+        except Exception as e:
+            print(f'Error saving parameters: {e}')
         if self.data_format == 'pickle':
             self.save_pickle()
         elif self.data_format == 'fits':
@@ -275,9 +286,7 @@ class DataStore(BaseProcessingObj):
             self.save()
         elif any(len(v) > 0 for v in self.storage.values()):
             # Samples after the last complete chunk
-            start = self.iter_counter - self.iter_counter % self.split_size
-            self.create_TN_folder(suffix=f'_{start + self.first_suffix}')
-            self.save()
+            self.save_chunk(self.iter_counter - self.iter_counter % self.split_size)
 
     def check_input_names(self):
         # DataStore inputs are added dynamically via input_list;
-- 
2.43.0


From a92a217908bd52c7fa258a465cc4a8a73ae32fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 36/73] fix: field analyses were not computed with the
 precision of the stored run

---
 specula/field_analyser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 6b44c6f..b0a0597 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -6,6 +6,7 @@ import yaml
 from astropy.io import fits
 import specula
 
+from specula import base_time_obj
 from specula.simul import Simul
 from specula.lib.calc_psf import calc_psf_geometry
 
@@ -491,7 +492,11 @@ class FieldAnalyser:
             yaml.dump(params_dict, temp_file, default_flow_style=False, sort_keys=False)
             temp_params_file = temp_file.name
 
+        # specula.init() has no effect on the default precision of modules already imported
+        default_precision = base_time_obj.global_precision
         try:
+            if self.replay_precision in (0, 1):
+                base_time_obj.global_precision = self.replay_precision
             # Create Simul instance normally (this initializes all required attributes)
             simul = Simul(temp_params_file)
             simul.run()
@@ -502,6 +507,7 @@ class FieldAnalyser:
             print(f"Temp params file for debugging: {temp_params_file}")
             raise
         finally:
+            base_time_obj.global_precision = default_precision
             # Clean up temporary file
             try:
                 os.unlink(temp_params_file)
-- 
2.43.0


From a699f53bc48ce25f0bfc2d43737fc9548334dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 37/73] fix: replayed values had no shape during setup()

Objects like AtmoEvolution look at their inputs in setup().
---
 specula/processing_objects/data_source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index fe46053..1db33c1 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -35,7 +35,10 @@ class DataSource(BaseProcessingObj):
             if self.obj_type[k] not in ['BaseValue', 'BaseDataObj']:
                 self.outputs[k] = import_class(self.obj_type[k]).from_header(self.headers[k])
             else:
-                self.outputs[k] = BaseValue(target_device_idx=self.target_device_idx)
+                # Other objects can need to know the shape during their setup()
+                samples = list(self.storage[k].values())
+                value = self.xp.zeros_like(self.to_xp(samples[0])) if samples else None
+                self.outputs[k] = BaseValue(value=value, target_device_idx=self.target_device_idx)
 
     @classmethod
     def input_names(cls):
-- 
2.43.0


From fe845e60ab5974452132475db680f86d5bd28c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 38/73] fix: replay parameters lost delays, lists and needed
 objects

- list inputs were not replaced, and delayed inputs were replaced without their
  delay (targeted replays) or not at all
- objects with at least one stored output were removed, even if others were needed
- with several data stores, only one replay was built and saved for all of them
- the parameters saved with the run were the ones modified while building it
- build_targeted_replay() modified its argument
- delayed and undelayed outputs cannot be read from the same data source: use two
---
 specula/processing_objects/data_store.py |   6 +-
 specula/simul.py                         | 151 ++++++++++++++++-------
 2 files changed, 107 insertions(+), 50 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index d97da47..39fc537 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -155,8 +155,10 @@ class DataStore(BaseProcessingObj):
 
         # Check if replay_params exists before using it
         if hasattr(self, 'replay_params') and self.replay_params is not None:
-            self.replay_params['data_source']['store_dir'] = self.tn_dir
-            self.replay_params['data_source']['global_precision'] = int(self.precision)
+            for name in ['data_source', 'data_source_delayed']:
+                if name in self.replay_params:
+                    self.replay_params[name]['store_dir'] = self.tn_dir
+                    self.replay_params[name]['global_precision'] = int(self.precision)
             filename = os.path.join(self.tn_dir, 'replay_params.yml')
             with open(filename, 'w') as outfile:
                 yaml.dump(self.replay_params, outfile, default_flow_style=False, sort_keys=False)
diff --git a/specula/simul.py b/specula/simul.py
index 3f0e0e7..2ec0b8c 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -352,7 +352,7 @@ class Simul():
 
         for key in self.build_order(params):
 
-            pars = params[key]
+            pars = params[key].copy()   # the original is saved by data stores
             try:
                 classname = pars['class']
             except KeyError:
@@ -614,7 +614,8 @@ class Simul():
 
             # TODO this could be more general like the getters above
             if type(self.objs[key]) is DataStore:
-                self.objs[key].setParams(params)
+                # params will be modified later
+                self.objs[key].setParams(deepcopy(params))
 
     def connect(self, output_name, input_name, dest_object):
         '''
@@ -747,10 +748,72 @@ class Simul():
 
         return data_source_pars, objnames, data_source_outputs
 
-    def build_replay(self, params):
+    def replay_inputs(self, inputs, data_source_outputs):
+        '''
+        Return a copy of an *inputs* dictionary, where all references to stored outputs
+        are replaced by references to the data source. Lists, input aliases and delays are kept.
+        '''
+        def replace(name):
+            output = self.split_output(name)
+            stored = f'{output.obj_name}.{output.output_key}'
+            if stored not in data_source_outputs:
+                return name
+            alias = '' if output.input_name is None else f'{output.input_name}-'
+            delay = '' if output.delay == 0 else f':{output.delay}'
+            return f'{alias}data_source.{data_source_outputs[stored]}{delay}'
+
+        return {k: [replace(x) for x in v] if type(v) is list else replace(v)
+                for k, v in inputs.items()}
+
+    def split_delayed_data_source(self, replay_params):
+        '''
+        An object is always triggered after the ones reading its delayed outputs, and before the ones
+        reading the others: a data source with both could not be ordered with the rest of the simulation.
+        In that case, delayed outputs are read from a data source of their own.
+        '''
+        def is_delayed(name):
+            return self.output_owner(name) == 'data_source' and self.output_delay(name) < 0
+
+        refs = [x for pars in replay_params.values() for _, x in self.iterate_inputs(pars)
+                if self.output_owner(x) == 'data_source']
+        delayed = [x for x in refs if is_delayed(x)]
+        if len(delayed) in [0, len(refs)]:
+            return
+
+        def replace(name):
+            return name.replace('data_source.', 'data_source_delayed.', 1) if is_delayed(name) else name
+
+        for pars in replay_params.values():
+            if 'inputs' in pars:
+                pars['inputs'] = {k: [replace(x) for x in v] if type(v) is list else replace(v)
+                                  for k, v in pars['inputs'].items()}
+
+        data_source_pars = replay_params['data_source']
+        delayed_outputs = [self.split_output(x).output_key for x in delayed]
+        replay_params['data_source_delayed'] = {**data_source_pars,
+            'outputs': [x for x in data_source_pars['outputs'] if x in delayed_outputs]}
+
+    def referenced_objects(self, pars):
+        '''
+        Names of all objects referenced by a parameter dictionary
+        '''
+        names = [self.output_owner(x) for _, x in self.iterate_inputs(pars)]
+        for k, v in pars.items():
+            if k.endswith('_list_ref'):
+                names += v
+            elif k.endswith('_dict_ref'):
+                names += v
+            elif k.endswith('_ref'):
+                names.append(v)
+        return names
+
+    def build_replay(self, params, data_store_name=None):
+        '''
+        Build the replay parameters for the data saved by a DataStore (default: the last one).
+        Objects whose outputs are replayed are removed, unless they are still needed.
+        '''
         replay_params = deepcopy(params)
         obj_to_remove = []
-        data_source_objname =''
         data_source_outputs = {}
         for key, pars in params.items():
             try:
@@ -759,25 +822,31 @@ class Simul():
                 raise KeyError(f'Object {key} does not define the "class" parameter')
 
             if classname=='DataStore':
-                data_source_pars, obj_to_remove, data_source_outputs = self.data_store_to_data_source(pars)
-                replay_params['data_source'] = data_source_pars
-                data_source_objname = key
-                obj_to_remove.append(data_source_objname)
-
-        for obj_name in set(obj_to_remove):
+                del replay_params[key]
+                if data_store_name is None or data_store_name == key:
+                    data_source_pars, obj_to_remove, data_source_outputs = self.data_store_to_data_source(pars)
+
+        if len(data_source_outputs) == 0:
+            return replay_params
+
+        for pars in replay_params.values():
+            if 'inputs' in pars:
+                pars['inputs'] = self.replay_inputs(pars['inputs'], data_source_outputs)
+
+        # Keep objects that other ones still need
+        obj_to_remove = set(obj_to_remove)
+        to_check = [x for x in replay_params if x not in obj_to_remove]
+        while to_check:
+            for name in self.referenced_objects(replay_params[to_check.pop()]):
+                if name in obj_to_remove:
+                    obj_to_remove.remove(name)
+                    to_check.append(name)
+
+        for obj_name in obj_to_remove:
             del replay_params[obj_name]
 
-        for key, pars in replay_params.items():
-            if not key=='data_source':
-                if 'inputs' in pars.keys():
-                    for input_name, output_name_full in pars['inputs'].items():
-                        if type(output_name_full) is list:
-                            print('TODO: list of inputs is not handled in output replay')
-                            continue
-                        print('output_name_full', output_name_full)
-                        if output_name_full in data_source_outputs.keys():
-                            replay_params[key]['inputs'][input_name] = 'data_source.' + data_source_outputs[output_name_full]
-
+        replay_params['data_source'] = data_source_pars
+        self.split_delayed_data_source(replay_params)
         return replay_params
 
     def build_targeted_replay(self, params, *target_object_names, set_store_dir=None):
@@ -816,31 +885,17 @@ class Simul():
                 return
 
             replay_params[key] = params[key].copy()
+            if 'inputs' in params[key]:
+                replay_params[key]['inputs'] = self.replay_inputs(params[key]['inputs'], datastore_outputs)
 
-            # Add all inputs
-            for k, _input in self.iterate_inputs(params[key]):
-                desc = self.split_output(_input)
-                # Use the complete key for lookup
-                complete_key = f"{desc.obj_name}.{desc.output_key}"
-                if complete_key in datastore_outputs:
-                    replay_params[key]['inputs'][k] = 'data_source.' + datastore_outputs[complete_key]
-                    continue
-                else:
-                    add_key(desc.obj_name)
-            # Add all references to other objects
-            for k, v in params[key].items():
-                if k.endswith('_list_ref'):
-                    for objname in v:
-                        add_key(objname)
-                elif k.endswith('_dict_ref'):
-                    for objname in v:
-                        add_key(objname)
-                elif k.endswith('_ref'):
-                    add_key(v)
+            # Add all inputs and references to other objects
+            for objname in self.referenced_objects(replay_params[key]):
+                add_key(objname)
 
         for key in target_object_names:
             add_key(key)
 
+        self.split_delayed_data_source(replay_params)
         return replay_params
 
     def iterate_inputs(self, pars):
@@ -1124,10 +1179,11 @@ class Simul():
         print(f'{self.trigger_order=}')
         print(f'{self.trigger_order_idx=}')
 
+        replay_params = {}
         if not self.isReplay(params):
-            replay_params = self.build_replay(params)
-        else:
-            replay_params = None
+            for key, pars in params.items():
+                if pars.get('class') == 'DataStore':
+                    replay_params[key] = self.build_replay(params, key)
 
         self.build_objects(params)
         self.create_input_list_inputs(params)
@@ -1141,10 +1197,9 @@ class Simul():
                 self.diagram_title = str(Path(self.param_files[0]).with_suffix(''))
             self.buildDiagram(params)
 
-        if replay_params is not None:
-            for obj in self.objs.values():
-                if type(obj) is DataStore:
-                    obj.setReplayParams(replay_params)
+        for name, store_replay_params in replay_params.items():
+            if name in self.objs:
+                self.objs[name].setReplayParams(store_replay_params)
 
         # Initialize housekeeping objects
         self.loop = LoopControl(stepping=self.stepping)
-- 
2.43.0


From 4c5d6ef8c73ae472b3eef6dded6932e236a9f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 39/73] fix: an error in a display no longer stops the
 simulation

---
 specula/display/base_display.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/specula/display/base_display.py b/specula/display/base_display.py
index d2b2902..64c56e8 100644
--- a/specula/display/base_display.py
+++ b/specula/display/base_display.py
@@ -98,12 +98,16 @@ class BaseDisplay(BaseProcessingObj):
             image_obj.set_clim(data.min(), data.max())
 
     def _show_error(self, message):
-        if not self._opened:
-            self._create_figure()
-        self.ax.clear()
-        self.ax.text(0.5, 0.5, message, ha='center', va='center', 
-                    transform=self.ax.transAxes, color='red', fontsize=12)
-        self._safe_draw()
+        # A display must not stop the simulation
+        try:
+            if not self._opened:
+                self._create_figure()
+            self.ax.clear()
+            self.ax.text(0.5, 0.5, message, ha='center', va='center', 
+                        transform=self.ax.transAxes, color='red', fontsize=12)
+            self._safe_draw()
+        except Exception as e:
+            print(f"{message} (cannot be displayed: {e})")
 
     def _safe_draw(self):
         """Thread-safe drawing method"""
-- 
2.43.0


From ec1534c98fd15bee53f453f25479a162e8a9a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 40/73] fix: values that DataPrint cannot format no longer stop
 the simulation

---
 specula/processing_objects/data_print.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/data_print.py b/specula/processing_objects/data_print.py
index ccbafa9..336ee63 100644
--- a/specula/processing_objects/data_print.py
+++ b/specula/processing_objects/data_print.py
@@ -45,6 +45,13 @@ class DataPrint(BaseProcessingObj):
     def output_names(cls):
         return {}
 
+    def _format(self, value):
+        # Values that cannot be formatted must not stop the simulation
+        try:
+            return f"{value:{self.format_str}}"
+        except (TypeError, ValueError):
+            return str(value)
+
     def trigger(self):
         # Check if it's time to print
         if (self.current_time - self.last_print_time) >= self.print_dt:
@@ -85,16 +92,16 @@ class DataPrint(BaseProcessingObj):
             if selected.ndim == 0:  # Scalar
                 try:
                     scalar_val = float(selected.item() if hasattr(selected, 'item') else selected)
-                    output += f"{scalar_val:{self.format_str}}"
+                    output += self._format(scalar_val)
                 except (TypeError, ValueError):
                     output += str(selected)
             elif selected.ndim == 1:  # 1D array
-                values_str = ", ".join([f"{v:{self.format_str}}" for v in selected])
+                values_str = ", ".join([self._format(v) for v in selected])
                 output += f"[{values_str}]"
             else:  # 2D or higher
                 output += f"shape={selected.shape}, "
                 flat = selected.flatten()[:10]  # Print first 10 elements
-                values_str = ", ".join([f"{v:{self.format_str}}" for v in flat])
+                values_str = ", ".join([self._format(v) for v in flat])
                 output += f"[{values_str}{'...' if selected.size > 10 else ''}]"
 
             print(output)
-- 
2.43.0


From 13ff59d5eba5795fb59f7710abccf4925d831d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 41/73] fix: phase screen cache mixed up similar parameters and
 unfinished or damaged files

---
 specula/lib/atomic_write.py        | 37 +++++++++++++++
 specula/lib/phasescreen_manager.py | 73 ++++++++++++++++++++++--------
 2 files changed, 92 insertions(+), 18 deletions(-)
 create mode 100644 specula/lib/atomic_write.py

diff --git a/specula/lib/atomic_write.py b/specula/lib/atomic_write.py
new file mode 100644
index 0000000..0eb2c94
--- /dev/null
+++ b/specula/lib/atomic_write.py
@@ -0,0 +1,37 @@
+import os
+import uuid
+from contextlib import contextmanager
+
+
+@contextmanager
+def atomic_write(filename):
+    """
+    Context manager for writing a file that is either complete or not there.
+
+    It gives the name of a temporary file in the same directory, which replaces
+    *filename* (if present) when the block ends, and is removed if the block fails.
+    Concurrent processes can write the same file: the last one wins.
+
+    Parameters
+    ----------
+    filename : str
+        Full path of the file to be written
+
+    Examples
+    --------
+    >>> with atomic_write('data.fits') as tmp:
+    ...     fits.writeto(tmp, data)
+    """
+    filename = os.fspath(filename)
+    # Same extension, because FITS files can be compressed depending on it
+    tmp = os.path.join(os.path.dirname(filename),
+                       f'.{uuid.uuid4().hex}.{os.path.basename(filename)}')
+    try:
+        yield tmp
+        os.replace(tmp, filename)
+    except BaseException:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+        raise
diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index 715694b..0f9b0e0 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -1,20 +1,51 @@
 import os
 
+import numpy as np
+
 from specula import cpuArray
 from astropy.io import fits
 
+from specula.lib.atomic_write import atomic_write
 from specula.lib.calc_phasescreen import calc_phasescreen
 
+
+def _exact(value, digits):
+    """
+    Text of a floating point value with a fixed number of decimal digits,
+    or with all its digits when these are not enough to tell it from another one.
+    """
+    value = float(value)
+    text = f'{value:.{digits}f}'
+    return text if float(text) == value else repr(value)
+
+
+def _load_phasescreen(filename, dimension):
+    """
+    Phase screen from a cache file, or None if it does not exist or cannot be used
+    (for example because it was truncated).
+    """
+    if not os.path.exists(filename):
+        return None
+    try:
+        phasescreen = fits.getdata(filename, memmap=True)
+    except Exception as e:
+        print(f'Cannot read {filename}, phase screen will be calculated again: {e}')
+        return None
+
+    # The dimension is forced to be a power of 2 when the phase screen is calculated
+    if phasescreen is None or phasescreen.ndim != 2 \
+            or not dimension <= phasescreen.shape[0] < 2 * dimension:
+        print(f'Unexpected data in {filename}, phase screen will be calculated again')
+        return None
+    return phasescreen
+
+
 def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, seed=None, verbose=False):
     if seed is None:
         seed = [0]
     
     precision_str = 'single' if precision==1 else 'double'
 
-    # Ensure the directory exists
-    if not os.path.exists(directory):
-        os.makedirs(directory)
-
     # List to store phase screens
     phasescreens = []
 
@@ -26,26 +57,32 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
         else:
             raise ValueError("The number of elements in L0 must be 1 or the same as the number of seeds!")
 
-        # Construct the file names
-        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name1 = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name3 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
+        # Same type for all callers, because it affects the rounding errors
+        L0i = np.float64(L0i)
+
+        # Construct the file names, that must be different if the phase screens are
+        params = f'dim{_exact(dimension, 0)}_pixpit{_exact(pixel_pitch, 3)}_L0{_exact(L0i, 4)}_{precision_str}'
+        phasescreen_name = f'ps_seed{_exact(element, 0)}_{params}.fits'
+        phasescreen_name2 = f'ps_seed{float(element)}_{params}.fits'
 
         # Check if the phase screen file exists in the directory
-        if os.path.exists(os.path.join(directory, phasescreen_name)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name1)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name1), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name2)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name2), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name3)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name3), memmap=True)
+        for name in [phasescreen_name, phasescreen_name2]:
+            phasescreen = _load_phasescreen(os.path.join(directory, name), dimension)
+            if phasescreen is not None:
+                break
         else:
             # Calculate the phase screen if it does not exist
             print('Calculating phasescreen...')
             phasescreen = calc_phasescreen(L0i, dimension, pixel_pitch, seed=element, precision=precision, verbose=verbose, xp=xp)
-            fits.writeto(os.path.join(directory, phasescreen_name), cpuArray(phasescreen), overwrite=True)
+            # Same memory layout as when it is read from the file, for the same rounding errors
+            phasescreen = xp.ascontiguousarray(phasescreen)
+            try:
+                # Ensure the directory exists
+                os.makedirs(directory, exist_ok=True)
+                with atomic_write(os.path.join(directory, phasescreen_name)) as tmp:
+                    fits.writeto(tmp, cpuArray(phasescreen))
+            except OSError as e:
+                print(f'Warning: cannot save {phasescreen_name} in {directory}: {e}')
             print('Done')
         
         # Add the phase screen to the list
-- 
2.43.0


From c8a14a5891e1b5cc856da8c6044e0c748bd54202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 42/73] fix: kernel cache mixed up different kernels and
 unfinished or damaged files

---
 specula/data_objects/convolution_kernel.py    | 64 +++++++++++++------
 .../gaussian_convolution_kernel.py            |  2 +-
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 334571b..79a0321 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -7,6 +7,7 @@ from astropy.io import fits
 
 from specula import cpuArray, ASEC2RAD
 from specula.base_data_obj import BaseDataObj
+from specula.lib.atomic_write import atomic_write
 from specula.lib.rebin import rebin2d
 
 
@@ -185,7 +186,7 @@ class ConvolutionKernel(BaseDataObj):
             lgs_tt = self.xp.array([0.5, 0.5], dtype=self.dtype) * self.pxscale
         lgs_tt += self.theta
 
-        items = [self.dimx, self.pupil_size_m, self.launcher_pos,
+        items = [self.dimx, self.dimy, self.pupil_size_m, self.launcher_pos,
                  zfocus, lay_heights, self.zprofile,
                  self.spot_size, self.pxscale, self.dimension,
                  self.oversampling, lgs_tt, self.dtype]
@@ -279,12 +280,16 @@ class ConvolutionKernel(BaseDataObj):
         if self.xp.any(~self.xp.isfinite(self.real_kernels)):
             raise ValueError("Kernel contains non-finite values!")
 
+        tolerance = 100 * self.xp.finfo(self.real_kernels.dtype).eps
+
         # Process the kernels - apply FFT if needed
         for i in range(self.dimx):
             for j in range(self.dimy):
                 subap_kern = self.to_xp(self.real_kernels[i * self.dimx + j, :, :])
                 total = self.xp.sum(subap_kern)
-                if total > 0:  # Avoid division by zero
+                # Avoid division by zero, and do not normalize (with different rounding errors)
+                # the kernels that are normalized already, like those saved to a file
+                if total > 0 and abs(total - 1) > tolerance:
                     subap_kern /= total
                 if return_fft:
                     subap_kern_fft = self.xp.fft.ifft2(subap_kern)
@@ -333,7 +338,8 @@ class ConvolutionKernel(BaseDataObj):
 
         # Create an HDUList and write to file
         hdul = fits.HDUList([primary_hdu, kernel_hdu])
-        hdul.writeto(filename, overwrite=True)
+        with atomic_write(filename) as tmp:
+            hdul.writeto(tmp)
         hdul.close()  # Force close for Windows
 
     def prepare_for_sh(self, sodium_altitude=None, sodium_intensity=None, current_time=None):
@@ -347,34 +353,54 @@ class ConvolutionKernel(BaseDataObj):
 
         # Only reload or recalculate if the kernel has changed
         if kernel_fn != self._kernel_fn:
-            self._kernel_fn = kernel_fn  # Update the stored kernel filename
-
             # Build full path using data_dir
-            if self.data_dir:
-                full_path = os.path.join(self.data_dir, kernel_fn + '.fits')
-            else:
-                full_path = kernel_fn + '.fits'
+            full_path = os.path.join(self.data_dir, kernel_fn + '.fits')
 
-            # Create directory if it doesn't exist
-            os.makedirs(os.path.dirname(full_path) if os.path.dirname(full_path)
-                        else '.', exist_ok=True)
-
-            if os.path.exists(full_path):
-                print(f"Loading kernel from {full_path}")
-                self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
-                             return_fft=True)
-            else:
+            if not self._load_cached(full_path):
                 print('Calculating kernel...')
                 self.calculate_lgs_map()
-                self.save(full_path)
+                try:
+                    # Create directory if it doesn't exist
+                    os.makedirs(os.path.dirname(full_path) or '.', exist_ok=True)
+                    self.save(full_path)
+                except OSError as e:
+                    print(f'Warning: cannot save kernel to {full_path}: {e}')
                 print('Done')
 
+            self._kernel_fn = kernel_fn  # Update the stored kernel filename
+
             # free memory
             self.real_kernels = None
 
         if current_time is not None:
             self.generation_time = current_time
 
+    def _load_cached(self, filename):
+        """
+        Load the kernels from a file saved by an object with the same parameters.
+
+        Returns:
+            bool: True if successful, False if the file does not exist or cannot be used
+                  (for example because it was truncated).
+        """
+        if not os.path.exists(filename):
+            return False
+
+        print(f"Loading kernel from {filename}")
+        try:
+            data = fits.getdata(filename, ext=1)
+            # Native endianess (FITS is big-endian), and the precision it was calculated with
+            real_kernels = self.xp.array(data, dtype=data.dtype.newbyteorder('='))
+            if real_kernels.shape[1:] != (self.dimension, self.dimension):
+                raise ValueError(f'unexpected shape {real_kernels.shape}')
+        except Exception as e:
+            print(f'Cannot read {filename}, kernel will be calculated again: {e}')
+            return False
+
+        self.real_kernels = real_kernels
+        self.process_kernels(return_fft=self.return_fft)
+        return True
+
     @staticmethod
     def restore(filename, target_device_idx=None, kernel_obj=None, return_fft=False):
         """
diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 8a41d35..52dd9c5 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -47,7 +47,7 @@ class GaussianConvolutionKernel(ConvolutionKernel):
         lgs_tt = [-0.5, -0.5] if not self.positive_shift_tt else [0.5, 0.5]
         self.lgs_tt = [x * self.pxscale for x in lgs_tt]
         items = [
-            self.dimx, self.pupil_size_m, 90e3, self.spot_size, self.dtype,
+            self.dimx, self.dimy, self.pupil_size_m, 90e3, self.spot_size, self.dtype,
             self.pxscale, self.dimension, 3, self.lgs_tt, [0, 0, 0], [90e3], [1.0],
         ]
         return 'ConvolutionKernel' + self.generate_hash(items)
-- 
2.43.0


From a78df9c0b4e94467b3edb15ae9bb9974ef59dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 43/73] fix: an interrupted save of a Recmat or PupData was
 restored as complete

---
 specula/data_objects/pupdata.py | 12 +++++++-----
 specula/data_objects/recmat.py  | 10 +++++++---
 specula/lib/atomic_write.py     |  7 ++++++-
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/specula/data_objects/pupdata.py b/specula/data_objects/pupdata.py
index e3b3b3d..bcb876e 100644
--- a/specula/data_objects/pupdata.py
+++ b/specula/data_objects/pupdata.py
@@ -3,6 +3,7 @@ from astropy.io import fits
 
 from specula.base_data_obj import BaseDataObj
 from specula import cpuArray
+from specula.lib.atomic_write import atomic_write
 
 class PupData(BaseDataObj):
     """
@@ -119,11 +120,12 @@ class PupData(BaseDataObj):
 
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
-        fits.writeto(filename, np.zeros(2), hdr, overwrite=overwrite)
-        fits.append(filename, cpuArray(self.ind_pup))
-        fits.append(filename, cpuArray(self.radius))
-        fits.append(filename, cpuArray(self.cx))
-        fits.append(filename, cpuArray(self.cy))
+        hdul = fits.HDUList([fits.PrimaryHDU(np.zeros(2), header=hdr)])
+        for data in (self.ind_pup, self.radius, self.cx, self.cy):
+            hdul.append(fits.ImageHDU(cpuArray(data)))
+        # restore() tolerates a missing last HDU: an interrupted save must not look complete
+        with atomic_write(filename, overwrite=overwrite) as tmp:
+            hdul.writeto(tmp)
 
     @staticmethod
     def restore(filename, target_device_idx=None):
diff --git a/specula/data_objects/recmat.py b/specula/data_objects/recmat.py
index 8453520..2eddb16 100644
--- a/specula/data_objects/recmat.py
+++ b/specula/data_objects/recmat.py
@@ -4,6 +4,7 @@ from astropy.io import fits
 
 from specula import cpuArray
 from specula.base_data_obj import BaseDataObj
+from specula.lib.atomic_write import atomic_write
 
 
 class Recmat(BaseDataObj):
@@ -73,10 +74,13 @@ class Recmat(BaseDataObj):
         if not filename.endswith('.fits'):
             filename += '.fits'
         hdr = self.get_fits_header()
-        fits.writeto(filename, np.zeros(2), hdr, overwrite=overwrite)
-        fits.append(filename, cpuArray(self.recmat))
+        hdul = fits.HDUList([fits.PrimaryHDU(np.zeros(2), header=hdr)])
+        hdul.append(fits.ImageHDU(cpuArray(self.recmat)))
         if self.modes2recLayer is not None:
-            fits.append(filename, cpuArray(self.modes2recLayer))
+            hdul.append(fits.ImageHDU(cpuArray(self.modes2recLayer)))
+        # Optional HDUs come last: an interrupted save must not look complete
+        with atomic_write(filename, overwrite=overwrite) as tmp:
+            hdul.writeto(tmp)
 
     @staticmethod
     def from_header(filename, target_device_idx=None):
diff --git a/specula/lib/atomic_write.py b/specula/lib/atomic_write.py
index 0eb2c94..c14e862 100644
--- a/specula/lib/atomic_write.py
+++ b/specula/lib/atomic_write.py
@@ -4,7 +4,7 @@ from contextlib import contextmanager
 
 
 @contextmanager
-def atomic_write(filename):
+def atomic_write(filename, overwrite=True):
     """
     Context manager for writing a file that is either complete or not there.
 
@@ -16,6 +16,9 @@ def atomic_write(filename):
     ----------
     filename : str
         Full path of the file to be written
+    overwrite : bool, optional
+        If False, raise OSError if *filename* already exists (and is not empty,
+        as astropy does)
 
     Examples
     --------
@@ -23,6 +26,8 @@ def atomic_write(filename):
     ...     fits.writeto(tmp, data)
     """
     filename = os.fspath(filename)
+    if not overwrite and os.path.exists(filename) and os.path.getsize(filename) != 0:
+        raise OSError(f"File {filename!r} already exists.")
     # Same extension, because FITS files can be compressed depending on it
     tmp = os.path.join(os.path.dirname(filename),
                        f'.{uuid.uuid4().hex}.{os.path.basename(filename)}')
-- 
2.43.0


From 5e8bf161e0c4e91166f55af223d6440a4aa941fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 44/73] fix: Intmat lost its metadata when restored

---
 specula/data_objects/intmat.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..a85cf61 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -3,6 +3,7 @@ import numpy as np
 from astropy.io import fits
 from specula import cpuArray
 
+from specula.lib.atomic_write import atomic_write
 from specula.lib.modal_base_generator import compute_ifs_covmat
 from specula.lib.mmse_reconstructor import compute_mmse_reconstructor
 from specula.base_data_obj import BaseDataObj
@@ -149,7 +150,9 @@ class Intmat(BaseDataObj):
             hdul.append(fits.ImageHDU(data=cpuArray(self.slope_mm), name='SLOPEMM'))
         if self.slope_rms is not None:
             hdul.append(fits.ImageHDU(data=cpuArray(self.slope_rms), name='SLOPERMS'))
-        hdul.writeto(filename, overwrite=overwrite)
+        # Optional HDUs come last: an interrupted save must not look complete
+        with atomic_write(filename, overwrite=overwrite) as tmp:
+            hdul.writeto(tmp)
         hdul.close()  # Force close for Windows
 
     @staticmethod
@@ -165,12 +168,15 @@ class Intmat(BaseDataObj):
             pupdata_tag = hdr.get('PUP_TAG', '')
             subapdata_tag = hdr.get('SA_TAG', '')
             # Reading additional fits extensions
-            if len(hdul) >= 4:
-                slope_mm = hdul[2].data.copy()
-                slope_rms = hdul[3].data.copy()
-            else:
-                slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+            slope_mm = slope_rms = None
+            for hdu in hdul[2:]:
+                if hdu.name == 'SLOPEMM':
+                    slope_mm = hdu.data.copy()
+                elif hdu.name == 'SLOPERMS':
+                    slope_rms = hdu.data.copy()
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms,
+                      pupdata_tag=pupdata_tag, subapdata_tag=subapdata_tag,
+                      norm_factor=norm_factor, target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From d83ed19d29c7e8d8f25ac319d6ae170381379d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 45/73] fix: BaseValue could not save 0-d arrays and restore
 nan or inf

---
 specula/base_value.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/base_value.py b/specula/base_value.py
index 2704de3..9845e38 100644
--- a/specula/base_value.py
+++ b/specula/base_value.py
@@ -39,7 +39,8 @@ class BaseValue(BaseDataObj):
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
 
-        if type(self.value) in array_types:
+        # FITS has no 0-dimensional arrays: store them as scalars
+        if type(self.value) in array_types and self.value.ndim > 0:
             data = cpuArray(self.value)
             hdr['NDARRAY'] = 1
         else:
@@ -60,7 +61,8 @@ class BaseValue(BaseDataObj):
         else:
             value_str = hdr.get('VALUE', None)
             if value_str is not None:
-                v.value = eval(value_str)  # Convert back from string to original type
+                # Convert back from string to original type (not-a-number values too)
+                v.value = eval(value_str, {'nan': np.nan, 'inf': np.inf})
         return v
 
     def array_for_display(self):
-- 
2.43.0


From 6864a4289d5ff28a0bd5696cf726f720e2d1fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 46/73] fix: Source at infinite height could not be saved

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..e868e96 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        # FITS headers cannot contain infinities, store as string
+        hdr['HEIGHT'] = self.height if np.isfinite(self.height) else str(self.height)
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=float(hdr['HEIGHT']),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From f3cfe049dae90b1682400c79f8f4ec9328535d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 47/73] fix: LaserLaunchTelescope lost airmass and empty
 position when restored

---
 .../data_objects/laser_launch_telescope.py    | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/specula/data_objects/laser_launch_telescope.py b/specula/data_objects/laser_launch_telescope.py
index 359e602..8e4040e 100644
--- a/specula/data_objects/laser_launch_telescope.py
+++ b/specula/data_objects/laser_launch_telescope.py
@@ -34,11 +34,6 @@ class LaserLaunchTelescope(BaseDataObj):
             The distance from the telescope pupil to beacon focus in m.
         beacon_tt : list
             The tilt and tip of the beacon in arcsec.
-
-        TODO the empty tel_position array is actually significant, because
-            it is checked in the SH code to manage the kernels,
-            but gives some problems for the FITS header (when reading from disk,
-            it won't be empty anymore)
         """
         super().__init__(target_device_idx=target_device_idx, precision=precision)
 
@@ -75,13 +70,18 @@ class LaserLaunchTelescope(BaseDataObj):
         hdr['VERSION'] = 1
         hdr['SPOTSIZE'] = self.spot_size
 
-        tel_pos = [0.0, 0.0, 0.0] if self.tel_pos == [] else self.tel_pos
+        # An empty position is significant: it disables the extended source kernels
+        empty = len(self.tel_pos) == 0
+        tel_pos = [0.0, 0.0, 0.0] if empty else self.tel_pos
+        hdr['NO_TELPS'] = empty
         hdr['TELPOS_X'] = tel_pos[0]
         hdr['TELPOS_Y'] = tel_pos[1]
         hdr['TELPOS_Z'] = tel_pos[2]
         hdr['BEAC_FOC'] = self.beacon_focus
         hdr['BEAC_TT0'] = self.beacon_tt[0]
         hdr['BEAC_TT1'] = self.beacon_tt[1]
+        if self.zenithAngleInDeg is not None:
+            hdr['ZENITH'] = self.zenithAngleInDeg
         return hdr
 
     def save(self, filename, overwrite=False):
@@ -97,13 +97,18 @@ class LaserLaunchTelescope(BaseDataObj):
         if version != 1:
             raise ValueError(f'Error: unknown version {version} in header')
 
+        if hdr.get('NO_TELPS', False):
+            tel_position = []
+        else:
+            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']]
         llt = LaserLaunchTelescope(
-            simul_params=SimulParams(zenithAngleInDeg=0.0),
+            simul_params=SimulParams(zenithAngleInDeg=hdr.get('ZENITH', 0.0)),
             spot_size = hdr['SPOTSIZE'],
-            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']],
-            beacon_focus = hdr['BEAC_FOC'],
+            tel_position = tel_position,
             beacon_tt = [hdr['BEAC_TT0'], hdr['BEAC_TT1']],
             target_device_idx=target_device_idx)
+        # The saved focus distance already includes the airmass
+        llt.beacon_focus = hdr['BEAC_FOC']
         return llt
 
     @staticmethod
-- 
2.43.0


From 0c4ef3b40714eb2ed79896f10626f06a26b8c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 48/73] fix: influence functions with a boolean mask could not
 be saved

---
 specula/data_objects/ifunc.py     | 5 ++++-
 specula/data_objects/ifunc_inv.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/ifunc.py b/specula/data_objects/ifunc.py
index 0923b7a..a7767ad 100644
--- a/specula/data_objects/ifunc.py
+++ b/specula/data_objects/ifunc.py
@@ -180,10 +180,13 @@ class IFunc(BaseDataObj):
 
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
+        mask = cpuArray(self._mask_inf_func)
+        if mask.dtype == bool:  # Not supported by FITS
+            mask = mask.astype('uint8')
         hdu = fits.PrimaryHDU(header=hdr)
         hdul = fits.HDUList([hdu])
         hdul.append(fits.ImageHDU(data=cpuArray(self._influence_function.T), name='INFLUENCE_FUNCTION'))
-        hdul.append(fits.ImageHDU(data=cpuArray(self._mask_inf_func), name='MASK_INF_FUNC'))
+        hdul.append(fits.ImageHDU(data=mask, name='MASK_INF_FUNC'))
         hdul.writeto(filename, overwrite=overwrite)
         hdul.close()  # Force close for Windows
 
diff --git a/specula/data_objects/ifunc_inv.py b/specula/data_objects/ifunc_inv.py
index 0070be0..57e7c4e 100644
--- a/specula/data_objects/ifunc_inv.py
+++ b/specula/data_objects/ifunc_inv.py
@@ -85,10 +85,13 @@ class IFuncInv(BaseDataObj):
 
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
+        mask = cpuArray(self.mask_inf_func)
+        if mask.dtype == bool:  # Not supported by FITS
+            mask = mask.astype('uint8')
         hdu = fits.PrimaryHDU(header=hdr)
         hdul = fits.HDUList([hdu])
         hdul.append(fits.ImageHDU(data=cpuArray(self.ifunc_inv.T), name='INFLUENCE_FUNCTION_INV'))
-        hdul.append(fits.ImageHDU(data=cpuArray(self.mask_inf_func), name='MASK_INF_FUNC'))
+        hdul.append(fits.ImageHDU(data=mask, name='MASK_INF_FUNC'))
         hdul.writeto(filename, overwrite=overwrite)
         hdul.close()  # Force close for Windows
 
-- 
2.43.0


From fc67057882cb25be1dd9f091d78b6485fc29fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 49/73] fix: commands below the first mode were accumulated
 into the last modes of the interaction matrix

The verbose print of the matrix shape also used an attribute that does not exist.
---
 specula/processing_objects/im_calibrator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..61a9e6a 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -171,7 +171,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
@@ -179,7 +179,8 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            # Commands outside the calibrated range of modes are ignored
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0


From fc3b103ee22cadd1cff884cc67aa563f50d5137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 50/73] fix: interaction matrix sent to other processes was not
 normalized by the number of measurements

The sums were divided by the counts in finalize() only, when outputs are no longer sent, so
that a RecCalibrator on another MPI rank inverted the sums. Keep a running average instead.
---
 specula/processing_objects/im_calibrator.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 61a9e6a..8feec95 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -181,8 +181,10 @@ class ImCalibrator(BaseProcessingObj):
             mode = int(idx[0]) - self.first_mode
             # Commands outside the calibrated range of modes are ignored
             if 0 <= mode < self.nmodes:
-                self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
+                # Running average: the output is always normalized by the counts,
+                # also for objects that do not share our memory
+                self.intmat.modes[mode] += (slopes / commands[idx] - self.intmat.modes[mode]) / self.count_commands[mode]
 
         in_slopes_object = self.local_inputs['in_slopes']
 
@@ -197,11 +199,6 @@ class ImCalibrator(BaseProcessingObj):
         self.intmat.generation_time = self.current_time
 
     def finalize(self):
-        # normalize by counts
-        for mode in range(self.nmodes):
-            if self.count_commands[mode] > 0:
-                self.intmat.modes[mode] /= self.count_commands[mode]
-
         os.makedirs(self.data_dir, exist_ok=True)
 
         # TODO add to IM the information about the first mode
-- 
2.43.0


From ebadacf08eb82383653c5721866924394becdcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 51/73] fix: MultiImCalibrator counted old measurements of the
 sensors that were not refreshed

---
 .../processing_objects/multi_im_calibrator.py | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 05e3fac..f693d9a 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -63,6 +63,9 @@ class MultiImCalibrator(BaseProcessingObj):
         # Add counts tracking for each input, this is used to normalize the IM
         self.count_commands = [np.zeros(nmodes, dtype=int) for _ in range(n_inputs)]
 
+        # Whether each slopes input has been refreshed in the current iteration
+        self.refreshed = [True] * n_inputs
+
         self.inputs['in_slopes_list'] = InputList(type=Slopes)
         self.inputs['in_commands_list'] = InputList(type=BaseValue)
 
@@ -112,6 +115,14 @@ class MultiImCalibrator(BaseProcessingObj):
         return {'out_intmat_list': OutputDesc(Intmat, 'List of per-WFS/sensor interaction matrices'),
                 'out_intmat_full': OutputDesc(Intmat, 'Full stacked interaction matrix from all sensors')}
 
+    def prepare_trigger(self, t):
+        super().prepare_trigger(t)
+
+        # Slopes *must* have been refreshed. We could have been triggered
+        # just by the commands, or by the slopes of another sensor.
+        self.refreshed = [x.generation_time == self.current_time
+                          for x in self.local_inputs['in_slopes_list']]
+
     def trigger_code(self):
 
         slopes = [x.slopes for x in self.local_inputs['in_slopes_list']]
@@ -127,14 +138,18 @@ class MultiImCalibrator(BaseProcessingObj):
             if len(idx) > 0:
                 mode = int(idx[0])
                 if mode < self.nmodes:
-                    # Update ALL interaction matrices for this command
+                    # Update ALL interaction matrices for this command,
+                    # skipping the sensors without a new measurement
                     for i, (im, ss) in enumerate(zip(self.outputs['out_intmat_list'], slopes)):
+                        if not self.refreshed[i]:
+                            continue
                         im.modes[mode] += ss / cc[idx]
                         self.count_commands[i][mode] += 1
 
-        # Update generation time for all IMs
-        for im in self.outputs['out_intmat_list']:
-            im.generation_time = self.current_time
+        # Update generation time for all IMs that received a new measurement
+        for im, refreshed in zip(self.outputs['out_intmat_list'], self.refreshed):
+            if refreshed:
+                im.generation_time = self.current_time
 
     def finalize(self):
         os.makedirs(self.data_dir, exist_ok=True)
-- 
2.43.0


From 6c26390eeaf7bb4ac5abdf4e7f5d5844dff7c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 52/73] fix: MultiImCalibrator could not run in a simulation
 because of the declared type of its output list

---
 specula/processing_objects/multi_im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index f693d9a..55a7973 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -112,7 +112,7 @@ class MultiImCalibrator(BaseProcessingObj):
 
     @classmethod
     def output_names(cls):
-        return {'out_intmat_list': OutputDesc(Intmat, 'List of per-WFS/sensor interaction matrices'),
+        return {'out_intmat_list': OutputDesc(list, 'List of per-WFS/sensor interaction matrices'),
                 'out_intmat_full': OutputDesc(Intmat, 'Full stacked interaction matrix from all sensors')}
 
     def prepare_trigger(self, t):
-- 
2.43.0


From ed84c8d1102cba8cc99bbdcbba7d1918e0107854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 53/73] fix: a single im_tag was split by character into the
 file names of MultiImCalibrator

---
 specula/processing_objects/multi_im_calibrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 55a7973..943670c 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -40,6 +40,9 @@ class MultiImCalibrator(BaseProcessingObj):
         if im_tag == 'auto':
             im_tag = self._generate_multi_im_tags(pupilstop, source_dict, dm, sensor_dict,
                                                 slopec_dict)
+        elif isinstance(im_tag, str):
+            # A single tag is shared by all inputs
+            im_tag = [f'{im_tag}{i}' for i in range(n_inputs)]
 
         if full_im_tag == 'auto':
             raise NotImplementedError('full_im_tag auto generation not implemented yet')
-- 
2.43.0


From 52b2bf7bfd6eeba799fd6f7651795a3815262fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 54/73] fix: MultiImCalibrator and MultiRecCalibrator joined a
 relative data directory twice

All matrices are also normalized before the first one is saved, because MultiRecCalibrator
uses them even if a file cannot be written.
---
 .../processing_objects/multi_im_calibrator.py | 19 +++++++++++--------
 .../multi_rec_calibrator.py                   |  8 ++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 943670c..78cd9d7 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -155,15 +155,12 @@ class MultiImCalibrator(BaseProcessingObj):
                 im.generation_time = self.current_time
 
     def finalize(self):
-        os.makedirs(self.data_dir, exist_ok=True)
-
+        # Normalize by counts before saving. All outputs are completed first,
+        # since other objects use them even if a file cannot be saved.
         for i, im in enumerate(self.outputs['out_intmat_list']):
-            # Normalize by counts before saving
             for mode in range(self.nmodes):
                 if self.count_commands[i][mode] > 0:
                     im.modes[mode] /= self.count_commands[i][mode]
-            if self.im_paths[i]:
-                im.save(os.path.join(self.data_dir, self.im_paths[i]), overwrite=self.overwrite)
             im.generation_time = self.current_time
 
         if self.full_im_path:
@@ -174,9 +171,15 @@ class MultiImCalibrator(BaseProcessingObj):
 
             self.outputs['out_intmat_full'].intmat = full_im
             self.outputs['out_intmat_full'].generation_time = self.current_time
-            if self.full_im_path:
-                self.outputs['out_intmat_full'].save(
-                    os.path.join(self.data_dir, self.full_im_path), overwrite=self.overwrite)
+
+        os.makedirs(self.data_dir, exist_ok=True)
+
+        for i, im in enumerate(self.outputs['out_intmat_list']):
+            if self.im_paths[i]:
+                im.save(self.im_paths[i], overwrite=self.overwrite)
+
+        if self.full_im_path:
+            self.outputs['out_intmat_full'].save(self.full_im_path, overwrite=self.overwrite)
 
     def setup(self):
         super().setup()
diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..487d27e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,19 +73,19 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
-                rec.save(os.path.join(self._data_dir, self.rec_path(i)), overwrite=self._overwrite)
+                rec.save(self.rec_path(i), overwrite=self._overwrite)
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-            fullrec.save(os.path.join(self._data_dir, full_rec_path), overwrite=self._overwrite)
+            fullrec.save(full_rec_path, overwrite=self._overwrite)
 
     def setup(self):
         super().setup()
-- 
2.43.0


From 09391cd9b2ba1c2df2be6c9777f5b78daa258838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 55/73] fix: existing subapertures and pupil files were
 detected at the end of the run only

---
 specula/processing_objects/pyr_pupdata_calibrator.py | 7 +++++++
 specula/processing_objects/sh_subap_calibrator.py    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index ed283c3..65d5c93 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -119,6 +119,13 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         self.save_on_exit = save_on_exit
         self.integrated_pixels = None
 
+        if self.save_on_exit and self.filename is not None and not self.overwrite:
+            file_path = os.path.join(self.data_dir, self.filename)
+            if not file_path.endswith('.fits'):
+                file_path += '.fits'
+            if os.path.exists(file_path):
+                raise FileExistsError(f'Pupdata file {file_path} already exists, please remove it')
+
         # Outputs
         self.pupdata = PupData(
             target_device_idx=self.target_device_idx,
diff --git a/specula/processing_objects/sh_subap_calibrator.py b/specula/processing_objects/sh_subap_calibrator.py
index 0c679f5..71a0595 100644
--- a/specula/processing_objects/sh_subap_calibrator.py
+++ b/specula/processing_objects/sh_subap_calibrator.py
@@ -37,6 +37,12 @@ class ShSubapCalibrator(BaseProcessingObj):
             self._filename = output_tag
         self._overwrite = overwrite
 
+        file_path = os.path.join(self._data_dir, self._filename)
+        if not file_path.endswith('.fits'):
+            file_path += '.fits'
+        if os.path.exists(file_path) and not self._overwrite:
+            raise FileExistsError(f'Subapdata file {file_path} already exists, please remove it')
+
         self.inputs['in_i'] = InputValue(type=Intensity, optional=True)
         self.inputs['in_pixels'] = InputValue(type=Pixels, optional=True)
 
-- 
2.43.0


From 490597f9fde3ed169c1f5cc1d4060016806711e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 56/73] fix: Demodulator used the wrong modes and merged or
 missed its windows

The first elements of a modal vector were used instead of the requested modes.
A window was only closed by an input at its last step, and only if the window was a multiple
of the time step. Inputs refreshed less often than at every step were demodulated with the
wrong sampling frequency.
---
 specula/processing_objects/demodulator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/demodulator.py b/specula/processing_objects/demodulator.py
index aaa07d3..95516af 100644
--- a/specula/processing_objects/demodulator.py
+++ b/specula/processing_objects/demodulator.py
@@ -56,18 +56,17 @@ class Demodulator(BaseProcessingObj):
         data = self.local_inputs['in_data'].get_value()
 
         # Extract data for the specified modes
-        if data.ndim > 1:
-            # Multi-dimensional data - extract modes
-            mode_data = data[self.mode_numbers]
-        else:
-            # 1D data
-            mode_data = data
+        mode_data = data[self.mode_numbers]
+
+        # Samples of a window that has ended without any input at its last step
+        if self.time_history and self.time_history[-1] // self.demod_dt != t // self.demod_dt:
+            self._perform_demodulation(t)
 
         self.data_history.append(mode_data.copy())
         self.time_history.append(t)
 
         # Check if it's time to demodulate
-        if (t + self.loop_dt - self.demod_dt) % self.demod_dt == 0:
+        if (t + self.loop_dt) // self.demod_dt != t // self.demod_dt:
             self._perform_demodulation(t)
 
     def _perform_demodulation(self, t):
@@ -82,7 +81,11 @@ class Demodulator(BaseProcessingObj):
 
         values = self.xp.zeros(len(self.mode_numbers), dtype=self.dtype)
 
+        # Inputs can be refreshed less often than at every step
         dt = self.t_to_seconds(self.loop_dt)
+        nsamples = len(self.time_history)
+        if nsamples > 1:
+            dt = self.t_to_seconds((self.time_history[-1] - self.time_history[0]) / (nsamples - 1))
         sampling_freq = 1.0 / dt
 
         for i, mode in enumerate(self.mode_numbers):
-- 
2.43.0


From aa5a9fccbc75da45a7a55e93ad4104bf8febe405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 57/73] fix: DataBuffer could not store scalars

---
 specula/processing_objects/data_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_buffer.py b/specula/processing_objects/data_buffer.py
index bebaa43..17dcca0 100644
--- a/specula/processing_objects/data_buffer.py
+++ b/specula/processing_objects/data_buffer.py
@@ -41,7 +41,7 @@ class DataBuffer(BaseProcessingObj):
         for k, item in self.local_inputs.items():
             if item is not None and item.generation_time == self.current_time:
                 v = item.get_value()
-                self.storage[k][self.step_counter] = v.copy()
+                self.storage[k][self.step_counter] = self.xp.array(v)
 
         self.step_counter += 1
 
-- 
2.43.0


From 62b5f930021cb88d08d3e65b354ece31a39b11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 58/73] fix: POLC reconstruction with several command or sensor
 inputs

---
 specula/processing_objects/modalrec.py | 29 +++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..68c3392 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -143,7 +143,11 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                if any(x.value is None for x in commands_list):
+                    # values will be None in the first iteration
+                    self.commands[:] = 0.0
+                else:
+                    self.commands[:] = self.xp.hstack([x.value for x in commands_list])
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
@@ -159,6 +163,14 @@ class Modalrec(BaseProcessingObj):
                                 f"intmat @ commands will produce {expected_slopes_size} slopes, "
                                 f"but input slopes has size {len(self.slopes)}")
 
+    def slopes_refreshed(self):
+        '''True if at least one of the slopes inputs has been refreshed'''
+        slopes = self.local_inputs['in_slopes']
+        if slopes is not None:
+            return slopes.generation_time == self.current_time
+        return any(x.generation_time == self.current_time
+                   for x in self.local_inputs['in_slopes_list'])
+
     def trigger_code(self):
         if self.recmat.recmat is None:
             print("WARNING: modalrec skipping reconstruction because recmat is NULL")
@@ -167,19 +179,8 @@ class Modalrec(BaseProcessingObj):
         # In the polc case, commands may be *alwats* refreshed if they are set with -1
         # (it might result in a kind of loop in the yml file)
         # Therefor we check the slopes input time and only run when they have been refreshed.
-        if self.polc:
-
-            slopes = self.local_inputs['in_slopes']
-            slopes_list = self.local_inputs['in_slopes_list']
-
-            if slopes is not None:
-                slopes_time = slopes.generation_time
-            else:
-                slopes_time = slopes_list[0].generation_time
-
-            if slopes_time != self.current_time:
-                return
-
+        if self.polc and not self.slopes_refreshed():
+            return
 
         if self.polc:
 
-- 
2.43.0


From 2af2aa6ad59f857b4d5866f4a55d82d74ce459b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 59/73] fix: implicit POLC recomputed old slopes when only the
 commands were refreshed

---
 specula/processing_objects/modalrec_implicit_polc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index a2f37fc..5d24685 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -101,12 +101,16 @@ class ModalrecImplicitPolc(Modalrec):
         if commandsobj is not None and commandsobj.value is not None \
                                    and commandsobj.value.shape != ():
             self.commands[:] = self.to_xp(commandsobj.value, dtype=self.dtype)
-        elif commands_list and all(commands_list):
+        elif commands_list and all(x.value is not None for x in commands_list):
             self.commands[:] = self.xp.hstack([x.value for x in commands_list])
         # else: keep the zeros from setup() or previous iteration
 
     def trigger_code(self):
 
+        # As in the explicit case, run only when the slopes have been refreshed
+        if not self.slopes_refreshed():
+            return
+
         output_modes = self.comm_mat.recmat @ self.slopes - self.h_mat.recmat @ self.commands
         self.modes.value = output_modes
         self.modes.generation_time = self.current_time
-- 
2.43.0


From 774ee4d9930115e1b2c7658a261b53631aa00fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 60/73] fix: MultirateComplementaryFilter advanced without a
 new fast measurement

---
 .../multirate_complementary_filter.py         | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/multirate_complementary_filter.py b/specula/processing_objects/multirate_complementary_filter.py
index f80765f..c3c7864 100644
--- a/specula/processing_objects/multirate_complementary_filter.py
+++ b/specula/processing_objects/multirate_complementary_filter.py
@@ -142,8 +142,16 @@ class MultirateComplementaryFilter(BaseFilter):
         # Call BaseProcessingObj to set time variables, skipping BaseFilter's delta_comm logic
         BaseProcessingObj.prepare_trigger(self, t)
 
+        # The filter advances only when a new measurement of the fast sensor has arrived:
+        # a refreshed gain_mod, for example, does not make up a new frame.
+        if self._use_vector_input:
+            t_fast = self.local_inputs['in_vec'].generation_time
+        else:
+            t_fast = self.local_inputs['in_yf'].generation_time
+        self._advance = t_fast != self._last_delta_time
+
         # 1. Delay buffer handling (Replicated from BaseFilter)
-        if self.delay > 0:
+        if self.delay > 0 and self._advance:
             self.output_buffer[:, 1:] = self.output_buffer[:, :-1]
 
         # 2. Gain Mod handling (Replicated from BaseFilter)
@@ -166,12 +174,16 @@ class MultirateComplementaryFilter(BaseFilter):
         # Disable this when slow inputs are already zero-stuffed upstream and therefore
         # legitimately carry the current generation_time at every fast frame.
         if self.validate_sync and not self._use_vector_input:
-            t_fast = self.local_inputs['in_yf'].generation_time
             expected_frame = self._cpu_frame_counter + 1
 
             for i, n in enumerate(self.N_list):
                 t_slow = self.local_inputs['in_ys'][i].generation_time
-                if expected_frame % n == 0:
+                if not self._advance:
+                    if t_slow == self.current_time:
+                        raise RuntimeError(f"Sync error: Slow sensor {i} (N={n})"
+                                           f" updated unexpectedly between fast frames"
+                                           f" {expected_frame - 1} and {expected_frame}.")
+                elif expected_frame % n == 0:
                     if t_slow != t_fast:
                         raise RuntimeError(f"Sync error: Slow sensor {i} (N={n}) missing update at"
                                       f" frame {expected_frame}. t_fast={t_fast}, t_slow={t_slow}")
@@ -180,7 +192,9 @@ class MultirateComplementaryFilter(BaseFilter):
                         raise RuntimeError(f"Sync error: Slow sensor {i} (N={n})"
                                            f" updated unexpectedly at fast frame {expected_frame}.")
 
-        self._cpu_frame_counter += 1
+        if self._advance:
+            self._cpu_frame_counter += 1
+            self._last_delta_time = t_fast
 
 
     def trigger_code(self):
-- 
2.43.0


From 392a05f2a7b22144268d28ba93bf1a11825fa29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 61/73] fix: BaseSlicer output shared its memory with the input

---
 specula/processing_objects/base_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2910cd6..d9ed887 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -57,7 +57,8 @@ class BaseSlicer(BaseProcessingObj):
             self.out_value.value = value[self.indices]
         elif self.slice_obj is not None:
             # Use slice object to extract the desired values
-            self.out_value.value = value[self.slice_obj]
+            # A slice would share its memory with the input
+            self.out_value.value = value[self.slice_obj].copy()
         else:
             # No slicing, copy the whole value
             self.out_value.value = value.copy()
-- 
2.43.0


From b1ffd9c3d17f05064f9a4a78ffe95a81bdc3ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 62/73] fix: a frame with NaN or infinite values poisoned all
 later frames (accumulators were cleared by multiplying by zero)

---
 specula/data_objects/electric_field.py               |  5 ++---
 specula/processing_objects/ccd.py                    |  2 +-
 specula/processing_objects/ext_source_pyramid.py     |  4 ++--
 specula/processing_objects/linear_combination.py     |  2 +-
 specula/processing_objects/modulated_double_roof.py  | 10 +++++-----
 specula/processing_objects/modulated_pyramid.py      |  4 ++--
 specula/processing_objects/pyr_pupdata_calibrator.py |  2 +-
 specula/processing_objects/slopec.py                 |  2 +-
 specula/processing_objects/windowed_integration.py   |  4 ++--
 9 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 553d72e..581ede5 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -102,9 +102,8 @@ class ElectricField(BaseDataObj):
 
         Arrays are not reallocated
         '''
-        self.field[0] *= 0
-        self.field[0] += 1
-        self.field[1] *= 0
+        self.field[0] = 1
+        self.field[1] = 0
 
     def resize(self, dimx, dimy, pitch=None):
         '''
diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 7cb74b7..9337f8a 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -267,7 +267,7 @@ class CCD(BaseProcessingObj):
             # Copy integrated intensity into output and then reset it.
             self._output_integrated_i.i[:] = self._integrated_i.i
             self._output_integrated_i.generation_time = self.current_time
-            self._integrated_i.i *= 0.0
+            self._integrated_i.i[:] = 0
 
     def apply_noise(self):
         pixels = self._pixels.pixels  # Name change, same reference
diff --git a/specula/processing_objects/ext_source_pyramid.py b/specula/processing_objects/ext_source_pyramid.py
index d1ebff3..bbc2784 100644
--- a/specula/processing_objects/ext_source_pyramid.py
+++ b/specula/processing_objects/ext_source_pyramid.py
@@ -394,8 +394,8 @@ class ExtSourcePyramid(ModulatedPyramid):
             self.cache_ttexp()
 
         # Reset output arrays for this frame
-        self.pyr_image *= 0
-        self.fpsf *= 0
+        self.pyr_image[:] = 0
+        self.fpsf[:] = 0
 
     def trigger_code(self):
         iu = self.xp.array(1j, dtype=self.complex_dtype)  # complex unit
diff --git a/specula/processing_objects/linear_combination.py b/specula/processing_objects/linear_combination.py
index a40727c..ac61e35 100644
--- a/specula/processing_objects/linear_combination.py
+++ b/specula/processing_objects/linear_combination.py
@@ -73,7 +73,7 @@ class LinearCombination(BaseProcessingObj):
         if not self.no_lift:
             lgs = self.xp.concatenate([lgs, lift])
 
-        self.out_vector.value *= 0.0
+        self.out_vector.value[:] = 0
         self.out_vector.value[:len(lgs)] = lgs
         self.out_vector.generation_time = self.current_time
 
diff --git a/specula/processing_objects/modulated_double_roof.py b/specula/processing_objects/modulated_double_roof.py
index 96a65d9..325307e 100644
--- a/specula/processing_objects/modulated_double_roof.py
+++ b/specula/processing_objects/modulated_double_roof.py
@@ -164,12 +164,12 @@ class ModulatedDoubleRoof(ModulatedPyramid):
         u_tlt_const = self.ef * self.tlt_f
         tmp = u_tlt_const[self.xp.newaxis, :, :] * self.ttexp
         self.u_tlt[:, 0:self.ttexp_shape[1], 0:self.ttexp_shape[2]] = tmp
-        self.pyr_image *= 0
-        self.fpsf *= 0
+        self.pyr_image[:] = 0
+        self.fpsf[:] = 0
 
         # Clear pre-allocated arrays instead of creating new ones
-        self.roof1_image *= 0
-        self.roof2_image *= 0
+        self.roof1_image[:] = 0
+        self.roof2_image[:] = 0
 
         for i in range(0, self.mod_steps):
             u_fp = self.xp.fft.fft2(self.u_tlt[i], axes=(-2, -1))
@@ -200,7 +200,7 @@ class ModulatedDoubleRoof(ModulatedPyramid):
     def _combine_roof_images(self):
         """Combine two roof images into a 4-quadrant pyramid-like pattern"""
         # Clear the output image
-        self.pyr_image *= 0
+        self.pyr_image[:] = 0
 
         # rotate by 90 degrees roof2_image
         roof2_rotated = self.xp.rot90(self.roof2_image)
diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..c09b55f 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -558,8 +558,8 @@ class ModulatedPyramid(BaseProcessingObj):
         tmp = u_tlt_const[self.xp.newaxis, :, :] * ttexp_current
         self.u_tlt[:, 0:self.ttexp_shape[1], 0:self.ttexp_shape[2]] = tmp
 
-        self.pyr_image *=0
-        self.fpsf *=0
+        self.pyr_image[:] = 0
+        self.fpsf[:] = 0
 
         for i in range(0, self.mod_steps):
             # Fourier Transform to propagate to the Focal Plane
diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index 65d5c93..511a38c 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -197,7 +197,7 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         self.pupdata.generation_time = self.current_time
 
         # Reset integrated intensity
-        self.integrated_pixels *= 0.0
+        self.integrated_pixels[:] = 0
 
     def _analyze_pupils(self, image):
         """
diff --git a/specula/processing_objects/slopec.py b/specula/processing_objects/slopec.py
index 3afe269..f1ca491 100644
--- a/specula/processing_objects/slopec.py
+++ b/specula/processing_objects/slopec.py
@@ -115,7 +115,7 @@ class Slopec(BaseProcessingObj):
         # Check if we're at the start of a new accumulation period
         if self.do_reset_accumulation:
             # Reset accumulation
-            self.int_pixels.pixels *= 0
+            self.int_pixels.pixels[:] = 0
             self.do_reset_accumulation = False
 
         # Add to existing accumulation
diff --git a/specula/processing_objects/windowed_integration.py b/specula/processing_objects/windowed_integration.py
index a8b5497..82b0cf8 100644
--- a/specula/processing_objects/windowed_integration.py
+++ b/specula/processing_objects/windowed_integration.py
@@ -54,12 +54,12 @@ class WindowedIntegration(BaseProcessingObj):
     def trigger_code(self):
         if self.start_time <= 0 or self.current_time >= self.start_time:
             input = self.local_inputs['input']
-            self.output.value *= 0.0
+            self.output.value[:] = 0
             self.integrated_value += input.value * self.loop_dt / self.dt
 
             if (self.current_time + self.loop_dt - self.dt - self.start_time) % self.dt == 0:
                 self.output.value[:] = self.integrated_value
-                self.integrated_value *= 0.0
+                self.integrated_value[:] = 0
                 # update generation time only when output is produced
                 if self.update_time_on_dt:
                     self.output.generation_time = self.current_time
-- 
2.43.0


From cc85b000b847bff8daca9e6e980e45c104c1aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 63/73] fix: DistributedSH failed with the default device,
 dropped the rows left over by an uneven division, and mixed rows of other
 sensors into its sums

---
 specula/processing_objects/distributed_sh.py | 10 ++++++----
 specula/processing_objects/sh.py             |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..bd93831 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -39,7 +39,9 @@ class DistributedSH(SH):
         del args['__class__']
 
         # Calculate slices for each SH
-        subaps_per_sh = subap_on_diameter // n_slices
+        if not 1 <= n_slices <= subap_on_diameter:
+            raise ValueError(f'n_slices must be between 1 and subap_on_diameter ({subap_on_diameter}), got {n_slices}')
+        edges = [i * subap_on_diameter // n_slices for i in range(n_slices + 1)]
         del args['n_slices']
 
         # Initialize base class - we do not use the calculation routines,
@@ -48,16 +50,16 @@ class DistributedSH(SH):
 
         self.slices = []
         for i in range(n_slices):
-            self.slices.append(slice( i * subaps_per_sh, (i+1) * subaps_per_sh))
+            self.slices.append(slice(edges[i], edges[i+1]))
 
         # Initialize internal SH with the other slices.
         # If using GPUs, each one targets a different device.
         self.sub_sh = []
 
         for i in range(n_slices):
-            if target_device_idx >= 0:
+            if self.target_device_idx >= 0:
                 num_devices = cp.cuda.runtime.getDeviceCount()
-                args['target_device_idx'] = (target_device_idx + i) % num_devices
+                args['target_device_idx'] = (self.target_device_idx + i) % num_devices
             args['subap_rows_slice'] = self.slices[i]
             self.sub_sh.append( SH(**args))
 
diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index 4cf6d8f..caab2a4 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -516,6 +516,10 @@ class SH(BaseProcessingObj):
             assert psf_cut_view.base is not None
             assert subap_cube_view.base is not None
 
+        # The image array is shared with other sensors: rows that we do not compute hold their data
+        self._psfimage[:self.subap_rows_slice.start * self._cutsize] = 0
+        self._psfimage[self.subap_rows_slice.stop * self._cutsize:] = 0
+
         with show_in_profiler('toccd'):
             self._out_i.i[:] = toccd(self._psfimage, (self._ccd_side, self._ccd_side), xp=self.xp)
 
-- 
2.43.0


From 8977d8182b2e90ac3fc32f17c11e1329df714d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 64/73] fix: ElectricFieldCombinator exchanged the dimensions
 of non-square fields

---
 specula/processing_objects/electric_field_combinator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index e1bcbad..7d5393d 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -75,8 +75,8 @@ class ElectricFieldCombinator(BaseProcessingObj):
             first_ef = in_ef1
 
         self._out_ef.resize(
-            dimx=first_ef.A.shape[0],
-            dimy=first_ef.A.shape[1],
+            dimx=first_ef.A.shape[1],
+            dimy=first_ef.A.shape[0],
             pitch=first_ef.pixel_pitch,
         )
         self.has_list = has_list
-- 
2.43.0


From e0b870512c1ed401d37415ca679e74696e4ddacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 65/73] fix: ModalAnalysis with a list of fields failed

---
 specula/processing_objects/modal_analysis.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 6269970..fa94de5 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -176,23 +176,6 @@ class ModalAnalysis(BaseProcessingObj):
         else:
             ef_list = self.in_ef_list
             output_list = self.out_modes_list
-        if self.phase2modes._doZeroPad:
-            m = self.xp.dot(self.in_ef.phaseInNm, self.phase2modes.ifunc_inv)
-        else:
-            if self.wavelengthInNm > 0:
-                phase_in_rad = self.in_ef.phaseInNm * (2 * self.xp.pi / self.wavelengthInNm)
-                phase_in_rad *= self.phase2modes.mask_inf_func.astype(float)
-                phase_in_rad = self.unwrap_2d(phase_in_rad)
-                phase_in_nm = phase_in_rad * (self.wavelengthInNm / (2 * self.xp.pi))
-                ph = phase_in_nm[self.phase2modes.idx_inf_func]
-            else:
-                ph = self.in_ef.phaseInNm[self.phase2modes.idx_inf_func]
-
-            m = self.xp.dot(ph, self.phase2modes.ifunc_inv)
-
-        self.out_modes.value[:] = m
-        self.out_modes.generation_time = self.current_time
-
         for li, current_ef in enumerate(ef_list):
             if self.phase2modes._doZeroPad:
                 m = self.xp.dot(current_ef.phaseInNm, self.phase2modes.ifunc_inv)
-- 
2.43.0


From f9112d8b9341b61b8a459444b00d9537269d5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 66/73] fix: ScheduleGenerator missed changes scheduled exactly
 at the time of a step

---
 specula/processing_objects/schedule_generator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/schedule_generator.py b/specula/processing_objects/schedule_generator.py
index 8e44e11..6968b36 100644
--- a/specula/processing_objects/schedule_generator.py
+++ b/specula/processing_objects/schedule_generator.py
@@ -39,11 +39,21 @@ class ScheduleGenerator(BaseGenerator):
         self.scheduled_values = self.to_xp(expanded_values, dtype=self.dtype)
         self.scheduled_times = self.to_xp(scheduled_times, dtype=self.dtype)
 
+        # Times are compared as integers, in simulation time units: a change scheduled
+        # at the time of a step must not be missed because of rounding
+        self.scheduled_times_t = self.to_xp([self.seconds_to_t(x) for x in scheduled_times],
+                                            dtype=np.int64)
+        self.current_time_t = self.xp.zeros(1, dtype=np.int64)
+
+    def prepare_trigger(self, t):
+        super().prepare_trigger(t)
+        self.current_time_t[:] = int(t)
+
     def trigger_code(self):
         # Find the index of the current time in the time schedule
         time_idx = self.xp.searchsorted(
-            self.scheduled_times,
-            self.current_time_gpu,
+            self.scheduled_times_t,
+            self.current_time_t,
             side='right'
         )
 
-- 
2.43.0


From f1b569f9d7705a65607c10aea3f9d0e00f3eb48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 67/73] fix: VibrationGenerator generated fewer samples than
 the steps of the simulation

---
 specula/processing_objects/vibration_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/vibration_generator.py b/specula/processing_objects/vibration_generator.py
index 28a9891..3db45d6 100644
--- a/specula/processing_objects/vibration_generator.py
+++ b/specula/processing_objects/vibration_generator.py
@@ -125,7 +125,8 @@ class VibrationGenerator(BaseGenerator):
 
         # Setup vibration generator
         samp_freq = 1 / simul_params.time_step
-        niter = int(simul_params.total_time / simul_params.time_step)
+        # Number of simulation steps, counted as LoopControl does
+        niter = -(-self.seconds_to_t(simul_params.total_time) // self.seconds_to_t(simul_params.time_step))
 
         self.time_hist = get_vibrations_time_hist(
             nmodes, psd=psd, freq=freq, seed=seed,
-- 
2.43.0


From b8cf2985929f8aa7111ec04047051287af772b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 68/73] fix: PhaseScreenCube was never refreshed after the
 first step, refused sources and wrapped around before its first time

---
 specula/processing_objects/phase_screen_cube.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/specula/processing_objects/phase_screen_cube.py b/specula/processing_objects/phase_screen_cube.py
index f9593d8..cdccf30 100644
--- a/specula/processing_objects/phase_screen_cube.py
+++ b/specula/processing_objects/phase_screen_cube.py
@@ -105,6 +105,12 @@ class PhaseScreenCube(BaseProcessingObj):
         dim = self.phasescreens.shape
         self.bin_fact = dim[1]/self.pixel_pupil*self.pixel_scale/self.pixel_pitch
 
+    def checkInputTimes(self):
+        # The phase screen evolves with time at each step,
+        # even if the pupilstop is usually never refreshed
+        self.get_all_inputs()
+        return True
+
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
         self.pupilstop = self.local_inputs['pupilstop']
@@ -112,6 +118,9 @@ class PhaseScreenCube(BaseProcessingObj):
         if self.t_to_seconds(t) > np.max(self.time_vector):
             raise ValueError('Error: the simulation is too long with respect to the input phase screen cube!')
 
+        if self.t_to_seconds(t) < np.min(self.time_vector):
+            raise ValueError('Error: the simulation starts before the input phase screen cube!')
+
         dt = self.time_vector-self.t_to_seconds(t)
         idx_first_positive = np.searchsorted(dt, 0, side='right')
         if idx_first_positive >= len(dt):
@@ -149,6 +158,11 @@ class PhaseScreenCube(BaseProcessingObj):
         return {'out_layer': OutputDesc(Layer, 'Output atmospheric phase layer (default single-source name)'),
                 'out_ef': OutputDesc(ElectricField, 'Output electric field for the line of sight (default single-source name)')}
 
+    def check_output_names(self):
+        # Outputs are created dynamically from the source dictionary;
+        # skip the static output_names validation.
+        pass
+
     def trigger_code(self):
         current_phase = self.ef_interpolator.interpolated_ef().phaseInNm
         for output_name, layer in self.layer_outputs.items():
-- 
2.43.0


From b0dff1e9cb56f56e3d95bbafd936bf8457af0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 69/73] fix: AtmoRandomPhase drew a new bank at every trigger
 once the first was exhausted

---
 specula/processing_objects/atmo_random_phase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_random_phase.py b/specula/processing_objects/atmo_random_phase.py
index 1caa058..f966767 100644
--- a/specula/processing_objects/atmo_random_phase.py
+++ b/specula/processing_objects/atmo_random_phase.py
@@ -196,6 +196,7 @@ class AtmoRandomPhase(BaseProcessingObj):
             self.seed += 1
             self.initScreens()
             self.new_position = 0
+            self.last_position = 0
 
     def trigger_code(self):
         current_phase = self.phasescreens[self.new_position,:,:] * self.scale_coeff
-- 
2.43.0


From 63757364ffc0d8b010ef231d04d2bfea7dfd3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 70/73] fix: OpticalGainEstimator failed with vectors and
 integer initial gains

---
 .../processing_objects/optical_gain_estimator.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/optical_gain_estimator.py b/specula/processing_objects/optical_gain_estimator.py
index 9e3df4a..78a244b 100644
--- a/specula/processing_objects/optical_gain_estimator.py
+++ b/specula/processing_objects/optical_gain_estimator.py
@@ -35,14 +35,14 @@ class OpticalGainEstimator(BaseProcessingObj):
 
         # Internal optical gain storage
         self.optical_gain = BaseValue(
-            value=self.xp.atleast_1d(initial_optical_gain),
+            value=self.xp.atleast_1d(self.to_xp(initial_optical_gain, dtype=self.dtype)),
             target_device_idx=target_device_idx,
             precision=precision
         )
 
         # Output value (can be different from internal optical_gain if using expressions)
         self.output = BaseValue(
-            value=self.xp.atleast_1d(initial_optical_gain),
+            value=self.xp.atleast_1d(self.to_xp(initial_optical_gain, dtype=self.dtype)),
             target_device_idx=target_device_idx,
             precision=precision
         )
@@ -94,16 +94,17 @@ class OpticalGainEstimator(BaseProcessingObj):
         current_gain = self.optical_gain.value
 
         # Avoid division by zero
-        if self.xp.abs(demod_cmd) > 1e-12:
-            ratio = demod_delta / demod_cmd
+        valid = self.xp.abs(demod_cmd) > 1e-12
+        if self.xp.any(valid):
+            ratio = demod_delta / self.xp.where(valid, demod_cmd, 1.0)
             # Update formula from IDL code
             updated_gain = current_gain - (1.0 - ratio) * self.gain * current_gain
 
-            self.optical_gain.value[:] = updated_gain
+            self.optical_gain.value[:] = self.xp.where(valid, updated_gain, current_gain)
             self.optical_gain.generation_time = self.current_time
 
             if self.verbose:
-                print(f"Optical gain updated: {float(current_gain):.6f} -> {float(updated_gain):.6f}")
+                print(f"Optical gain updated: {current_gain} -> {updated_gain}")
         else:
             if self.verbose:
                 print("Warning: demod_command too small, skipping optical gain update")
-- 
2.43.0


From 5306cdc5d3b93cc877659d9a837b006da4cbe5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 71/73] fix: GainOptimizer skipped optimizations when no input
 came exactly at the interval, averaged PSDs with zeros, and gave NaN for
 filters with zero gain

---
 specula/data_objects/iir_filter_data.py      | 10 ++++++--
 specula/processing_objects/gain_optimizer.py | 27 ++++++++++++--------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 3147c3c..62c1d4c 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -192,6 +192,12 @@ class IirFilterData(BaseDataObj):
         if verbose:
             print('new gain:', self.gain)
 
+    def normalized_num(self, mode):
+        """Numerator of a filter with unit gain, also when its current gain is zero."""
+        if self._num_normalized is not None:
+            return self._num_normalized[mode, :]
+        return self.num[mode, :] / self.gain[mode]
+
     def RTF(self, mode, fs, freq=None, dm=None, nw=None, dw=None,
             verbose=False,title=None, plot=True, overplot=False,
             **extra):
@@ -569,7 +575,7 @@ class IirFilterData(BaseDataObj):
             if mode >= self.nfilter:
                 raise ValueError(f"Mode {mode} exceeds number of filters {self.nfilter}")
 
-            num_coeffs = cpuArray(self.num[mode, :])
+            num_coeffs = cpuArray(self.normalized_num(mode))
             den_coeffs = cpuArray(self.den[mode, :])
 
             # Create hashable tuples for caching
@@ -589,7 +595,7 @@ class IirFilterData(BaseDataObj):
 
             # Calculate for each mode separately
             for i in range(self.nfilter):
-                num_coeffs = cpuArray(self.num[i, :])
+                num_coeffs = cpuArray(self.normalized_num(i))
                 den_coeffs = cpuArray(self.den[i, :])
 
                 num_tuple = tuple(num_coeffs)
diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index ae8331e..5f8231e 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -62,6 +62,7 @@ class GainOptimizer(BaseProcessingObj):
         self.optical_gain_hist = []
         self.nperseg_psd = None
         self.psd_ol = None
+        self.psd_ol_valid = False   # True when psd_ol contains the previous PSDs
         self.prev_optimized_gain = self.iir_filter_data.gain.copy()
 
         self.plot_debug = False  # Enable plotting for debugging
@@ -76,6 +77,7 @@ class GainOptimizer(BaseProcessingObj):
         self.optimized_gain.value = self.xp.ones(self.nmodes, dtype=self.dtype)
 
         self.optimization_done = False
+        self.next_opt = self.opt_dt
 
         # Inputs
         self.inputs['delta_comm'] = InputValue(type=BaseValue)
@@ -120,11 +122,11 @@ class GainOptimizer(BaseProcessingObj):
         self.comm_hist.append(self.current_out_comm.copy())
 
         # Check if it's time to optimize
-        if t >= self.opt_dt and (t % self.opt_dt) == 0:
-            self._optimize_gains(t)
-            self.optimization_done = True
-        else:
-            self.optimization_done = False
+        # (there might be no inputs exactly at the multiples of the interval)
+        self.optimization_done = False
+        if t >= self.next_opt:
+            self.optimization_done = self._optimize_gains(t)
+            self.next_opt = (t // self.opt_dt + 1) * self.opt_dt
 
     def _optimize_gains(self, t):
         """
@@ -133,7 +135,7 @@ class GainOptimizer(BaseProcessingObj):
         if len(self.delta_comm_hist) < 2:
             if self.verbose:
                 print("Not enough history for optimization")
-            return
+            return False
 
         # Convert history to arrays
         delta_comm_hist = self.xp.array(self.delta_comm_hist)
@@ -157,6 +159,7 @@ class GainOptimizer(BaseProcessingObj):
             opt_gains[mode] = self._optimize_single_mode(
                 mode, pseudo_ol[:, mode], self.time_step, gmax_vec[mode]
             )
+        self.psd_ol_valid = self.psd_ol is not None
 
         if self.plot_debug:
             plt.figure()
@@ -189,6 +192,8 @@ class GainOptimizer(BaseProcessingObj):
             print(f"Optimized gains at t={self.t_to_seconds(t):.3f}s: "
                   f"mean={float(self.xp.mean(opt_gains)):.4f}")
 
+        return True
+
     def _calculate_pseudo_open_loop(self, delta_comm_hist, comm_hist):
         """
         Calculate pseudo open-loop signal from delta commands and output commands.
@@ -246,11 +251,9 @@ class GainOptimizer(BaseProcessingObj):
         """
 
         # Get filter coefficients for this mode from iir_filter_data
-        num = cpuArray(self.iir_filter_data.num.copy()[mode, :])
+        # with an unitary gain, because _calculate_rejection_tf wants it
+        num = cpuArray(self.iir_filter_data.normalized_num(mode)).copy()
         den = cpuArray(self.iir_filter_data.den.copy()[mode, :])
-        # normalize numerator by the gain
-        # This is done because _calculate_rejection_tf wants a num with unitary gain
-        num /= cpuArray(self.iir_filter_data.gain[mode])
 
         # Calculate PSD of pseudo open-loop signal
         psd_pseudo_ol, freq = self._calculate_psd(pseudo_ol_mode, t_int)
@@ -258,7 +261,9 @@ class GainOptimizer(BaseProcessingObj):
         # Apply running mean if enabled
         if self.running_mean and self.psd_ol is not None:
             if self.psd_ol.shape[1] > mode:
-                psd_pseudo_ol = (psd_pseudo_ol + self.psd_ol[:, mode]) / 2.0
+                if self.psd_ol_valid:
+                    psd_pseudo_ol = (psd_pseudo_ol + self.psd_ol[:, mode]) / 2.0
+                self.psd_ol[:, mode] = psd_pseudo_ol
 
         # t_intst different gain values
         gains = self.xp.linspace(gmax/self.ngains, gmax, self.ngains)
-- 
2.43.0


From c5e6735cae10303130fa37eca8dda660920713e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 72/73] fix: SPRINT demodulated slopes refreshed less often
 than each step at the wrong frequency

---
 specula/processing_objects/base_sprint_estimator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_sprint_estimator.py b/specula/processing_objects/base_sprint_estimator.py
index 4210c30..4b2c3df 100644
--- a/specula/processing_objects/base_sprint_estimator.py
+++ b/specula/processing_objects/base_sprint_estimator.py
@@ -344,7 +344,8 @@ class BaseSprintEstimator(BaseProcessingObj):
         nslopes = slopes_array.shape[1]
         im_measured = self.xp.zeros((nslopes, self.nmodes), dtype=self.dtype)
 
-        dt = self.simul_params.time_step
+        # Slopes can be refreshed less often than at every step
+        dt = self.t_to_seconds((self.time_history[-1] - self.time_history[0]) / (len(self.time_history) - 1))
         sampling_freq = 1.0 / dt
 
         if self.verbose: # pragma: no cover
-- 
2.43.0


From 3445c1bb1d18c64cad4bb588143eab9413f83a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:40 +0000
Subject: [PATCH 73/73] fix: plain numbers sent to other ranks as MPI buffers
 were truncated (single precision) or misread (integers)

---
 specula/base_processing_obj.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index e28b0e8..def1279 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -1,6 +1,6 @@
 from collections import defaultdict, namedtuple
 
-from specula import cpuArray, default_target_device, np, cp, MPI_DBG, MPI_SEND_DBG
+from specula import array_types, cpuArray, default_target_device, np, cp, MPI_DBG, MPI_SEND_DBG
 from specula import show_in_profiler
 from specula import process_comm, process_rank
 from specula.base_time_obj import BaseTimeObj
@@ -161,14 +161,15 @@ class BaseProcessingObj(BaseTimeObj):
 
         - None: the whole data object follows, pickled. This is done for the first valid data,
           each time something else than the data values has changed (shape, type, scalings...),
-          and for lists of data objects
+          for lists of data objects, and for values that are not arrays (plain numbers
+          do not have the same type on both sides once they are set)
         - otherwise, the generation time: only the data values follow, as an MPI buffer
         '''
         key = (dest_tag, connection)
         if MPI_SEND_DBG: print(process_rank, f'SEND to rank {dest_rank} {dest_tag=} {(key in self.sent_valid)=} (from {self.name}.{out_name})', flush=True)
         buffer = None if isinstance(item, list) else item.get_value()
         layout = None
-        if buffer is not None:
+        if isinstance(buffer, tuple(array_types)):
             # MPI needs a contiguous buffer, while outputs can be views of larger arrays.
             # Data is always sent in C order, independently from the local memory layout.
             buffer = np.ascontiguousarray(cpuArray(buffer))
@@ -192,8 +193,7 @@ class BaseProcessingObj(BaseTimeObj):
             if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer type', dest_tag, buffer.dtype, flush=True)
             process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
             process_comm.Ibsend(buffer, dest=dest_rank, tag=dest_tag)
-        if layout is not None:
-            self.sent_valid[key] = layout
+        self.sent_valid[key] = layout
 
     # this method implements the mpi send call of the outputs connected to remote inputs
     def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
-- 
2.43.0

