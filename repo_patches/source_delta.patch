From c29d1294595cb1edb7558457cb57a63f00a25e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:17 +0000
Subject: [PATCH 01/14] fix: build XY-concatenated sequences of order three and
 above correctly

The recursion always overwrote the last element of the lower order
sequence with a Z operation. That element is a Y pulse only when the
lower order is odd. For even lower orders it is free evolution, so
pulses and time steps were lost.
---
 .../predefined.py                             | 34 +++++++------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 8167239..9816af5 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1232,26 +1232,16 @@ def _concatenation_xy(concatenation_sequence) -> np.ndarray:
 
     if concatenation_sequence == 1:
         return np.array([1, -1, 1, -2, 1, -1, 1, -2])
-    cumulations = np.concatenate(
-        (_concatenation_xy(concatenation_sequence - 1), np.array([-1])), axis=0
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-2]
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-1])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    if cumulations[-1] == -2 and cumulations[-2] == -2:
-        cumulations = cumulations[0:-2]
+    cumulations = np.array([], dtype=int)
+    for operation in [-1, -2, -1, -2]:
+        cumulations = np.concatenate(
+            (cumulations, _concatenation_xy(concatenation_sequence - 1)), axis=0
+        )
+        # the lower order sequence ends with either free evolution or a Y operation, which has to
+        # be merged with the operation that follows it (Y and X make Z, whereas Y and Y cancel out)
+        if cumulations[-1] == -2:
+            cumulations = cumulations[0:-1]
+            operation = -3 if operation == -1 else None
+        if operation is not None:
+            cumulations = np.concatenate((cumulations, np.array([operation])), axis=0)
     return cumulations
-- 
2.43.0


From 08990c4e1da57e8f1d5c120887f8def82e937543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:39 +0000
Subject: [PATCH 02/14] fix: keep the last pulse of odd order XY-concatenated
 sequences inside the sequence

Pulse times were found by summing the unit spacing many times. Rounding
could push the final pulse past the sequence duration, and the sequence
was then rejected. Count the steps first and scale the count once.
---
 .../dynamic_decoupling_sequences/predefined.py           | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 9816af5..524f333 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1020,8 +1020,7 @@ def new_xy_concatenated_sequence(
     rabi_operations = rabi_operations[rabi_operations != -3]
     rabi_positions = np.zeros(rabi_operations.shape)
     rabi_positions[rabi_operations != -1] = 1
-    rabi_positions = rabi_positions * unit_spacing
-    rabi_positions = np.cumsum(rabi_positions)
+    rabi_positions = np.cumsum(rabi_positions) * unit_spacing
 
     values, counts = np.unique(rabi_positions, return_counts=True)
     rabi_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
@@ -1030,8 +1029,7 @@ def new_xy_concatenated_sequence(
     azimuthal_operations = azimuthal_operations[azimuthal_operations != -3]
     azimuthal_positions = np.zeros(azimuthal_operations.shape)
     azimuthal_positions[azimuthal_operations != -2] = 1
-    azimuthal_positions = azimuthal_positions * unit_spacing
-    azimuthal_positions = np.cumsum(azimuthal_positions)
+    azimuthal_positions = np.cumsum(azimuthal_positions) * unit_spacing
 
     values, counts = np.unique(azimuthal_positions, return_counts=True)
     azimuthal_offsets = [
@@ -1042,8 +1040,7 @@ def new_xy_concatenated_sequence(
     detuning_operations = detuning_operations[detuning_operations != -1]
     detuning_positions = np.zeros(detuning_operations.shape)
     detuning_positions[detuning_operations != -3] = 1
-    detuning_positions = detuning_positions * unit_spacing
-    detuning_positions = np.cumsum(detuning_positions)
+    detuning_positions = np.cumsum(detuning_positions) * unit_spacing
 
     values, counts = np.unique(detuning_positions, return_counts=True)
     detuning_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
-- 
2.43.0


From b1b29c5d2691d4a5458ae5eac523b78e7de7db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:54 +0000
Subject: [PATCH 03/14] fix: keep the pulses of very short sequences in the
 conversion to driven controls

Any sequence whose times were all below the absolute tolerance of
allclose (about 1e-8 seconds) was taken for free evolution, so its pulses
were dropped without warning. Free evolution does not need a special case.
---
 .../dynamic_decoupling_sequence.py                     | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 8dff4c4..246bfc3 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -464,16 +464,6 @@ def convert_dds_to_driven_control(
             },
         )
 
-    if np.allclose(pulse_start_ends, 0.0):
-        # the original sequence should be a free evolution
-        return DrivenControl(
-            rabi_rates=[0.0],
-            azimuthal_angles=[0.0],
-            detunings=[0.0],
-            durations=[sequence_duration],
-            name=name,
-        )
-
     control_rabi_rates = np.zeros((operations.shape[1] * 2,))
     control_azimuthal_angles = np.zeros((operations.shape[1] * 2,))
     control_detunings = np.zeros((operations.shape[1] * 2,))
-- 
2.43.0


From 5ed125880ad3cb925c19d3eab473ffda3b7e6370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:58 +0000
Subject: [PATCH 04/14] fix: detect overlapping pulses in short sequences

Gaps were compared with an absolute tolerance of 1e-8 seconds. Pulses of
nanosecond sequences could therefore overlap by more than their own width.
Make the tolerance relative to the duration of the sequence.
---
 .../dynamic_decoupling_sequence.py                           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 246bfc3..8d82d58 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -440,11 +440,14 @@ def convert_dds_to_driven_control(
 
     # check if the minimum_segment_duration is respected in the gaps between the pulses
     # as minimum_segment_duration >= 0, this also excludes overlaps
+    # the tolerance for rounding errors is relative to the sequence duration
     gap_durations = pulse_start_ends[1:, 0] - pulse_start_ends[:-1, 1]
     if not np.all(
         np.logical_or(
             np.greater(gap_durations, minimum_segment_duration),
-            np.isclose(gap_durations, minimum_segment_duration),
+            np.isclose(
+                gap_durations, minimum_segment_duration, atol=1e-8 * sequence_duration
+            ),
         )
     ):
         raise ArgumentsValueError(
-- 
2.43.0


From 93b02cd3c58e3e7a3cc4e3ca5c57d18b404df2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:02 +0000
Subject: [PATCH 05/14] fix: reject simultaneous Rabi and negative detuning
 rotations

Only positive detuning rotations were noticed. A negative one together
with a Rabi rotation was accepted and then left out of the control.
---
 .../dynamic_decoupling_sequences/dynamic_decoupling_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 8d82d58..a775e37 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -522,6 +522,6 @@ def _check_valid_operation(
     """
 
     rabi_rotation_index = set(np.where(rabi_rotations > 0.0)[0])
-    detuning_rotation_index = set(np.where(detuning_rotations > 0.0)[0])
+    detuning_rotation_index = set(np.where(detuning_rotations != 0.0)[0])
 
     return not rabi_rotation_index.intersection(detuning_rotation_index)
-- 
2.43.0


From 654ac793ef7db50d5d936467026d14ac69bfb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:05 +0000
Subject: [PATCH 06/14] fix: export unnamed controls to CSV

The name was removed from the exported data without checking that it was
there, which raised KeyError for controls without a name.
---
 qctrlopencontrols/driven_controls/driven_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 7c7ee02..f87bb30 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -390,7 +390,7 @@ class DrivenControl:
 
         control_info = self._qctrl_expanded_export_content(coordinates=coordinates)
         if file_type == FileType.CSV.value:
-            _ = control_info.pop("name")
+            _ = control_info.pop("name", None)
             control_info["maximum_rabi_rate"] = [
                 self.maximum_rabi_rate
             ] * self.number_of_segments
-- 
2.43.0


From b35fbf94e2e5e2ee075a38c04194c12e94367002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:09 +0000
Subject: [PATCH 07/14] fix: export controls without drive as zeros

Normalizing to a maximum Rabi rate of zero filled the exported data with
NaN, which is not even valid JSON.
---
 .../driven_controls/driven_control.py            | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index f87bb30..1fd0ac2 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -346,6 +346,9 @@ class DrivenControl:
             A dictionary containing the information of the control.
         """
 
+        # a control without any drive cannot be normalized
+        normalizer = self.maximum_rabi_rate or 1.0
+
         control_info = {
             "maximum_rabi_rate": self.maximum_rabi_rate,
             "detuning": list(self.detunings),
@@ -356,14 +359,10 @@ class DrivenControl:
             control_info["name"] = self.name
 
         if coordinates == Coordinate.CARTESIAN.value:
-            control_info["amplitude_x"] = list(
-                self.amplitude_x / self.maximum_rabi_rate
-            )
-            control_info["amplitude_y"] = list(
-                self.amplitude_y / self.maximum_rabi_rate
-            )
+            control_info["amplitude_x"] = list(self.amplitude_x / normalizer)
+            control_info["amplitude_y"] = list(self.amplitude_y / normalizer)
         else:
-            control_info["rabi_rates"] = list(self.rabi_rates / self.maximum_rabi_rate)
+            control_info["rabi_rates"] = list(self.rabi_rates / normalizer)
             control_info["azimuthal_angles"] = list(self.azimuthal_angles)
 
         return control_info
@@ -537,7 +536,8 @@ class DrivenControl:
             {"coordinates": coordinates},
         )
 
-        if dimensionless_rabi_rate:
+        # a control without any drive cannot be normalized
+        if dimensionless_rabi_rate and self.maximum_rabi_rate != 0:
             normalizer = self.maximum_rabi_rate
         else:
             normalizer = 1
-- 
2.43.0


From 9a0eee3e4dc44af00629cdb0b7faf73265b00d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:13 +0000
Subject: [PATCH 08/14] fix: show negative detunings when the largest detuning
 is zero

The string format divided by the largest detuning and printed zeros for
every segment when that was zero.
---
 qctrlopencontrols/driven_controls/driven_control.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 1fd0ac2..67925dc 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -593,10 +593,13 @@ class DrivenControl:
             [str(azimuthal_angle / np.pi) for azimuthal_angle in self.azimuthal_angles]
         )
 
+        # if the largest detuning is zero the others are negative and set the scale
+        detuning_scale = self.maximum_detuning or np.amax(np.abs(self.detunings))
+
         pretty_detuning = ",".join(
             [
-                str(detuning / self.maximum_detuning)
-                if self.maximum_detuning != 0
+                str(detuning / detuning_scale)
+                if detuning_scale != 0
                 else "0"
                 for detuning in self.detunings
             ]
@@ -613,7 +616,7 @@ class DrivenControl:
             "Azimuthal Angles = [{}] x pi".format(pretty_azimuthal_angles)
         )
         driven_control.append(
-            "Detunings = [{}] x {}".format(pretty_detuning, self.maximum_detuning)
+            "Detunings = [{}] x {}".format(pretty_detuning, detuning_scale)
         )
         driven_control.append(
             "Durations = [{}] x {}".format(pretty_durations, self.duration)
-- 
2.43.0


From 365d96eae8e53021abbaa2796b970512e7b8523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:16 +0000
Subject: [PATCH 09/14] fix: respect the minimum segment duration of modulated
 Gaussian controls

The number of segments was rounded up, which made every segment shorter
than the requested minimum unless the duration was an exact multiple.
---
 qctrlopencontrols/driven_controls/predefined.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/predefined.py b/qctrlopencontrols/driven_controls/predefined.py
index 525344b..8375ec4 100644
--- a/qctrlopencontrols/driven_controls/predefined.py
+++ b/qctrlopencontrols/driven_controls/predefined.py
@@ -1040,8 +1040,9 @@ def new_modulated_gaussian_control(
         },
     )
 
-    # work out exact segment duration
-    segment_count = int(np.ceil(duration / minimum_segment_duration))
+    # work out exact segment duration, which is never shorter than the minimum segment duration
+    # (the small number allows for rounding errors if the duration is a multiple of the minimum)
+    segment_count = int(np.floor(duration / minimum_segment_duration + 1e-9))
     segment_duration = duration / segment_count
     segment_start_times = np.arange(segment_count) * segment_duration
     segment_midpoints = segment_start_times + segment_duration / 2
-- 
2.43.0


From bd28d8d77dfd594081caeec4e381980272772005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:20 +0000
Subject: [PATCH 10/14] fix: do not amplify rounding errors in modulated
 Gaussian controls

When every segment midpoint falls on a zero of the modulation, the signal
consists of rounding errors. Normalizing it gave Rabi rates far above the
maximum and a control that is not an identity.
---
 qctrlopencontrols/driven_controls/predefined.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/predefined.py b/qctrlopencontrols/driven_controls/predefined.py
index 8375ec4..8f4b488 100644
--- a/qctrlopencontrols/driven_controls/predefined.py
+++ b/qctrlopencontrols/driven_controls/predefined.py
@@ -1061,15 +1061,19 @@ def new_modulated_gaussian_control(
         modulation_signals = np.sin(
             2.0 * np.pi * modulation_frequency * (segment_midpoints - duration / 2)
         )
+        # a sinusoid sampled at its zeros only differs from zero by rounding errors
+        rounding_error = 1e-12 * np.abs(modulation_frequency * duration)
+        modulation_signals[np.abs(modulation_signals) < rounding_error] = 0.0
         # modulate the base gaussian
         modulated_gaussian_segments = base_gaussian_segments * modulation_signals
 
         # maximum segment value
         pulse_segments_maximum = np.max(modulated_gaussian_segments)
         # normalize to maximum Rabi rate
-        modulated_gaussian_segments = (
-            maximum_rabi_rate * modulated_gaussian_segments / pulse_segments_maximum
-        )
+        if pulse_segments_maximum > 0:
+            modulated_gaussian_segments = (
+                maximum_rabi_rate * modulated_gaussian_segments / pulse_segments_maximum
+            )
     else:
         # for the zero-frequency pulse, we need to produce the largest possible full rotation (i.e.
         # multiple of 2pi) while respecting the maximum Rabi rate. Note that if the maximum Rabi
-- 
2.43.0


From aa8f6c5cfb3b03a2f251c4535bbcf8a559434e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:35 +0000
Subject: [PATCH 11/14] fix: let argument errors be copied and pickled

---
 qctrlopencontrols/exceptions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qctrlopencontrols/exceptions.py b/qctrlopencontrols/exceptions.py
index 7fdd3c1..80d3714 100644
--- a/qctrlopencontrols/exceptions.py
+++ b/qctrlopencontrols/exceptions.py
@@ -54,3 +54,7 @@ class ArgumentsValueError(QctrlError):
             for key in self.extras:
                 self.message += "\n" + str(key) + "=" + repr(self.extras[key])
         super().__init__(self.message)
+
+    def __reduce__(self):
+        # the default would pass only the message when the error is copied or unpickled
+        return type(self), (self.description, self.arguments, self.extras)
-- 
2.43.0


From ab517254e97a7df8c491f4e4d4686b491afbb885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:35 +0000
Subject: [PATCH 12/14] fix: do not negate unsigned rotation angles in
 composite pulses

---
 qctrlopencontrols/driven_controls/predefined.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qctrlopencontrols/driven_controls/predefined.py b/qctrlopencontrols/driven_controls/predefined.py
index 8f4b488..cd33ab7 100644
--- a/qctrlopencontrols/driven_controls/predefined.py
+++ b/qctrlopencontrols/driven_controls/predefined.py
@@ -76,7 +76,8 @@ def _get_transformed_rabi_rotation_wimperis(rabi_rotation: float) -> float:
         "The polar angle must be between -4 pi and 4 pi (inclusive).",
         {"rabi_rotation": rabi_rotation},
     )
-    return np.arccos(-rabi_rotation / (4 * np.pi))
+    # the sign is on the divisor because unsigned numbers cannot be negated
+    return np.arccos(rabi_rotation / (-4 * np.pi))
 
 
 def _derive_segments(
-- 
2.43.0


From 51d0cba2cfc203e6483e98ea827a99841cc0ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:28 +0000
Subject: [PATCH 13/14] fix: store pulse times of sequences as floating point
 numbers like the other columns

---
 .../dynamic_decoupling_sequences/dynamic_decoupling_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index a775e37..ba1f575 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -87,7 +87,7 @@ class DynamicDecouplingSequence:
             {"duration": duration},
         )
 
-        offsets = np.asarray(offsets)
+        offsets = np.asarray(offsets, dtype=np.float)
         check_arguments(
             np.all((offsets >= 0) & (duration >= offsets)),
             "Offsets for dynamic decoupling sequence must be between 0 and the sequence "
-- 
2.43.0


From 9dbc682c69c7ffb9e78f42e86a20ea0e45e54257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:36 +0000
Subject: [PATCH 14/14] fix: avoid deprecated NumPy type aliases, which fail
 when warnings are errors

---
 qctrlopencontrols/constants.py                         | 10 +++++-----
 qctrlopencontrols/driven_controls/driven_control.py    |  2 +-
 .../dynamic_decoupling_sequence.py                     |  8 ++++----
 .../dynamic_decoupling_sequences/predefined.py         |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/qctrlopencontrols/constants.py b/qctrlopencontrols/constants.py
index 2bcfe80..28f1cc4 100644
--- a/qctrlopencontrols/constants.py
+++ b/qctrlopencontrols/constants.py
@@ -18,11 +18,11 @@ Defines commonly used constants.
 
 import numpy as np
 
-SIGMA_X = np.array([[0.0, 1.0], [1.0, 0.0]], dtype=np.complex)
-SIGMA_Y = np.array([[0.0, -1.0j], [1.0j, 0.0]], dtype=np.complex)
-SIGMA_Z = np.array([[1.0, 0.0], [0.0, -1.0]], dtype=np.complex)
-SIGMA_M = np.array([[0.0, 1.0], [0.0, 0.0]], dtype=np.complex)
-SIGMA_P = np.array([[0.0, 0.0], [1.0, 0.0]], dtype=np.complex)
+SIGMA_X = np.array([[0.0, 1.0], [1.0, 0.0]], dtype=complex)
+SIGMA_Y = np.array([[0.0, -1.0j], [1.0j, 0.0]], dtype=complex)
+SIGMA_Z = np.array([[1.0, 0.0], [0.0, -1.0]], dtype=complex)
+SIGMA_M = np.array([[0.0, 1.0], [0.0, 0.0]], dtype=complex)
+SIGMA_P = np.array([[0.0, 0.0], [1.0, 0.0]], dtype=complex)
 
 # Matplotlib format of data for plotting
 MATPLOTLIB = "matplotlib"
diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 67925dc..5c2de25 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -102,7 +102,7 @@ class DrivenControl:
 
         self.name = name
 
-        durations = np.asarray(durations, dtype=np.float)
+        durations = np.asarray(durations, dtype=float)
 
         # check if all the durations are greater than zero
         check_arguments(
diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index ba1f575..74d3493 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -87,7 +87,7 @@ class DynamicDecouplingSequence:
             {"duration": duration},
         )
 
-        offsets = np.asarray(offsets, dtype=np.float)
+        offsets = np.asarray(offsets, dtype=float)
         check_arguments(
             np.all((offsets >= 0) & (duration >= offsets)),
             "Offsets for dynamic decoupling sequence must be between 0 and the sequence "
@@ -117,9 +117,9 @@ class DynamicDecouplingSequence:
 
         self.duration = duration
         self.offsets = offsets
-        self.rabi_rotations = np.asarray(rabi_rotations, dtype=np.float)
-        self.azimuthal_angles = np.asarray(azimuthal_angles, dtype=np.float)
-        self.detuning_rotations = np.asarray(detuning_rotations, dtype=np.float)
+        self.rabi_rotations = np.asarray(rabi_rotations, dtype=float)
+        self.azimuthal_angles = np.asarray(azimuthal_angles, dtype=float)
+        self.detuning_rotations = np.asarray(detuning_rotations, dtype=float)
         self.name = name
 
     def export(self) -> Dict:
diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 524f333..6a4a29c 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -680,7 +680,7 @@ def new_walsh_sequence(duration, paley_order, pre_post_rotation=False, name=None
     for i in range(samples - 1):
         if walsh_array[i] != walsh_array[i + 1]:
             walsh_relative_offsets.append((i + 1) * (1.0 / samples))
-    walsh_relative_offsets = np.array(walsh_relative_offsets, dtype=np.float)
+    walsh_relative_offsets = np.array(walsh_relative_offsets, dtype=float)
 
     offsets = duration * walsh_relative_offsets
     rabi_rotations = np.full(offsets.shape, np.pi)
-- 
2.43.0

