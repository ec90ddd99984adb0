From 4ad40978650de16111ccc734598f046fe607a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:18 +0000
Subject: [PATCH 01/26] fix: give BalloonState unit-valued fields default
 factories

dataclasses reject unhashable defaults since Python 3.11, so the simulator
could not be imported.
---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
-- 
2.43.0


From c5526ca13db3e0a61efcd5ff7ee51f78e769e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:18 +0000
Subject: [PATCH 02/26] fix: make FieldShape hashable so that it can be a
 dataclass default

dataclasses reject unhashable defaults since Python 3.11, so the VAE decoder
could not be imported.
---
 balloon_learning_environment/generative/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..9fcd3a6 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -23,7 +23,7 @@ import jax
 import jax.numpy as jnp
 
 
-@dataclasses.dataclass
+@dataclasses.dataclass(frozen=True)
 class FieldShape:
   """Class to parameterize the shape of the VAE field."""
 
-- 
2.43.0


From ce15343f5fb4f89e38b1816f021b2d198bd768c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 03/26] fix: lay out the fan efficiency table as one row per
 power level

---
 balloon_learning_environment/env/balloon/acs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/acs.py b/balloon_learning_environment/env/balloon/acs.py
index ff9f513..b9293ca 100644
--- a/balloon_learning_environment/env/balloon/acs.py
+++ b/balloon_learning_environment/env/balloon/acs.py
@@ -37,7 +37,8 @@ _PRESSURE_RATIO_POWER_TO_EFFICIENCY: interpolate.interp2d = (
                   0.23, 0.20, 0.15, 0.12, 0.10, 0.00000, 0.00000, 0.00000,
                   0.00000, 0.3, 0.25, 0.25, 0.25, 0.20, 0.20, 0.20, 0.2, 0.15,
                   0.13, 0.12, 0.11, 0.00000, 0.23, 0.23, 0.23, 0.23, 0.23, 0.20,
-                  0.20, 0.20, 0.18, 0.16, 0.15, 0.13]),  # efficiency
+                  0.20, 0.20, 0.18, 0.16, 0.15, 0.13]).reshape(
+                      4, 13),  # efficiency, one row per power.
         fill_value=None))
 
 
-- 
2.43.0


From d556812e7e70b1270f6c5d501a8ada4c0afe3fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 04/26] fix: reject wind levels outside the column in
 NamedPerciatelliFeatures

---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0


From 2ec0b85dcc866fc4ce3f94261640ff3d80a2f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 05/26] fix: raise when comparing Energy >= with another type
 instead of returning an exception

---
 balloon_learning_environment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index d923a96..7858d5e 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -249,7 +249,7 @@ class Energy(object):
     if isinstance(other, Energy):
       return self.watt_hours >= other.watt_hours
     else:
-      return ValueError(f'Cannot compare Energy and {type(other)}')
+      raise ValueError(f'Cannot compare Energy and {type(other)}')
 
 
 class Power(object):
-- 
2.43.0


From cb45cd90a126f320f98beed38e21b2f2be44a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 06/26] fix: refuse positions that are not valid in
 solar_calculator

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From e4b3e1bdf48934ee11ee535e536f74f4fa897ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 07/26] fix: reject values outside [0, 1) in
 undo_squash_to_unit_interval

---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From fc74ae1a80a8180d40eab0bc1f38e99802a3ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 08/26] fix: NamedPerciatelliFeatures had navigation_paused and
 navigation_enabled swapped

The feature constructor writes 'navigation is paused' at index 11 and its
negation at index 12.
---
 balloon_learning_environment/env/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index 1b05f48..b274018 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -214,8 +214,8 @@ class NamedPerciatelliFeatures:
     elif last_command_idx == 2:
       self.last_command = control.AltitudeControlCommand.DOWN
 
-    self.navigation_enabled = ambient_features[11]
-    self.navigation_paused = ambient_features[12]
+    self.navigation_paused = ambient_features[11]
+    self.navigation_enabled = ambient_features[12]
 
     self.has_excess_energy = ambient_features[13]
     self.descent_cost = ambient_features[14]
-- 
2.43.0


From 95b439d18b36d63b64841e7e343d1bbf3f025a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 09/26] fix: WindGP query no longer crashes when every
 observation is stale

Dropping all observations older than the time horizon left nothing to fit.
---
 balloon_learning_environment/env/wind_gp.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..8b76d19 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -183,11 +183,17 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
-      self.model.fit(inputs, targets)
 
-      # Output should be a N x 2 set of predictions about local measurements,
-      # and a N-sized vector of standard deviations.
-      means, deviations = self.model.predict(locations, return_std=True)
+      if inputs.shape[0] == 0:
+        # All observations are stale, which is the same as having none.
+        means = np.zeros((locations.shape[0], 2))
+        deviations = np.zeros(locations.shape[0])
+      else:
+        self.model.fit(inputs, targets)
+
+        # Output should be a N x 2 set of predictions about local measurements,
+        # and a N-sized vector of standard deviations.
+        means, deviations = self.model.predict(locations, return_std=True)
 
       # Deviations are std.dev., convert to variance and normalize.
       # TODO(bellemare): Ask what the actual lower bound is supposed to
-- 
2.43.0


From 7d26237dffd93e2a0c1b04154eb725f155cf2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 10/26] fix: accept any scalar pressure in grid wind field
 forecasts

---
 balloon_learning_environment/env/generative_wind_field.py | 2 +-
 balloon_learning_environment/env/grid_based_wind_field.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/generative_wind_field.py b/balloon_learning_environment/env/generative_wind_field.py
index 5e6146a..b6a4e30 100644
--- a/balloon_learning_environment/env/generative_wind_field.py
+++ b/balloon_learning_environment/env/generative_wind_field.py
@@ -220,7 +220,7 @@ class GenerativeWindField(wind_field.WindField):
           elapsed_hours,
           self.field_shape.time_horizon_hours)
 
-    num_points = 1 if isinstance(pressure, float) else len(pressure)
+    num_points = 1 if np.ndim(pressure) == 0 else len(pressure)
     point = np.empty((num_points, 4), dtype=np.float32)
     point[:, 0] = x_km
     point[:, 1] = y_km
diff --git a/balloon_learning_environment/env/grid_based_wind_field.py b/balloon_learning_environment/env/grid_based_wind_field.py
index b2774c3..07b9af4 100644
--- a/balloon_learning_environment/env/grid_based_wind_field.py
+++ b/balloon_learning_environment/env/grid_based_wind_field.py
@@ -177,7 +177,7 @@ class GridBasedWindField(wind_field.WindField):
           elapsed_hours,
           self.field_shape.time_horizon_hours)
 
-    num_points = 1 if isinstance(pressure, float) else len(pressure)
+    num_points = 1 if np.ndim(pressure) == 0 else len(pressure)
     point = np.empty((num_points, 4), dtype=np.float32)
     point[:, 0] = x_km
     point[:, 1] = y_km
-- 
2.43.0


From 1f14be7c7fa072751449d0306d6ab76ac69d01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 11/26] fix: solar_calculator mixed the local date with the UTC
 time of day for non-UTC times

---
 balloon_learning_environment/env/balloon/solar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..5adeb25 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -61,6 +61,7 @@ def solar_calculator(latlng: s2.LatLng,
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
+  time = time.astimezone(dt.timezone.utc)
 
   # Compute fraction_of_day from time.
   fraction_of_day = (
-- 
2.43.0


From 80ec0c8b2e978698bcf4314b9d954173d830a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 12/26] fix: solar elevation was nan when rounding put the sun
 beyond the zenith

---
 balloon_learning_environment/env/balloon/solar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 5adeb25..d43154f 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -133,10 +133,12 @@ def solar_calculator(latlng: s2.LatLng,
   declination_sun = np.arcsin(
       np.sin(obliquity_correction) * np.sin(apparent_long_sun))
 
+  # Rounding can take the cosine just outside [-1, 1] if the sun is overhead.
   zenith_angle = np.arccos(
-      np.sin(latlng.lat().radians) * np.sin(declination_sun) +
-      np.cos(latlng.lat().radians) * np.cos(declination_sun) *
-      np.cos(hour_angle))
+      np.clip(
+          np.sin(latlng.lat().radians) * np.sin(declination_sun) +
+          np.cos(latlng.lat().radians) * np.cos(declination_sun) *
+          np.cos(hour_angle), -1.0, 1.0))
 
   # Compute solar elevation. Correct for atmospheric refraction.
   el_uncorrected_deg = 90.0 - math.degrees(zenith_angle)
-- 
2.43.0


From 18af7c9579207f505784b1c5269e4ee09650f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 13/26] fix: sunrise and sunset search assumed that the
 objective is symmetric

---
 balloon_learning_environment/env/balloon/solar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index d43154f..d3e549c 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -359,12 +359,12 @@ def _find_solar_elevation_binary_search(
 
   # Binary search the function for its minimum.
   while high > low + 1:
-    midpoint = low + (high - low) / 2
-    if objective[low] < objective[high]:
-      # This trick works when the function is symmetric around its minimum.
-      high = math.ceil(midpoint)  # Ceil/floor is a bit more conservative.
+    midpoint = (low + high) // 2
+    # Convex, but not necessarily symmetric: follow the local slope.
+    if objective[midpoint] < objective[midpoint + 1]:
+      high = midpoint
     else:
-      low = math.floor(midpoint)
+      low = midpoint
 
   # If all went well, the minimum is either high or low.
   if objective[low] < objective[high]:
-- 
2.43.0


From 99982b4dbf20e24750ed0510907ae6fefa5d1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:48 +0000
Subject: [PATCH 14/26] fix: units.datetime defaults to UTC when tzinfo is
 None, as documented

---
 balloon_learning_environment/utils/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index 7858d5e..3e54e28 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -353,6 +353,8 @@ def datetime(year: int,
   Returns:
     A timezone object.
   """
+  if tzinfo is None:
+    tzinfo = dt.timezone.utc
   # pylint: disable=g-tzinfo-datetime
   return dt.datetime(
       year, month, day, hour, minute, second, microsecond, tzinfo, fold=fold)
-- 
2.43.0


From cfb582444723fb3f7462ecde5be2cd4b649424ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:51 +0000
Subject: [PATCH 15/26] fix: offsets that end at a pole could raise a math
 domain error

---
 balloon_learning_environment/utils/spherical_geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/balloon_learning_environment/utils/spherical_geometry.py b/balloon_learning_environment/utils/spherical_geometry.py
index 4b5c9a5..bb61f48 100644
--- a/balloon_learning_environment/utils/spherical_geometry.py
+++ b/balloon_learning_environment/utils/spherical_geometry.py
@@ -66,6 +66,7 @@ def calculate_latlng_from_offset(center_latlng: s2.LatLng,
 
   sin_lat = (cos_angle * sin_from_lat +
              sin_angle * cos_from_lat * math.cos(heading))
+  sin_lat = min(max(sin_lat, -1.0), 1.0)  # Rounding near the poles.
   d_lng = math.atan2(sin_angle * cos_from_lat * math.sin(heading),
                      cos_angle - sin_from_lat * sin_lat)
 
-- 
2.43.0


From e6c79872ae67431a8ab14244188502a843f2f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:18 +0000
Subject: [PATCH 16/26] fix: only files that save_checkpoint writes count as
 checkpoints

A stray file such as checkpoint_final.pkl made garbage collection raise and
made get_latest_checkpoint report that there is no checkpoint, so training
restarted from scratch; checkpoint_1_2.pkl was taken for iteration 12.
Checkpoints from iteration 100000 on were never collected, and a directory
name with glob characters hid all checkpoints.
---
 .../agents/dopamine_utils.py                  | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..e87e1b0 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -18,6 +18,7 @@
 import os.path as osp
 import pathlib
 import pickle
+import re
 from typing import Any, Dict, Callable
 
 from absl import logging
@@ -30,15 +31,9 @@ def _make_checkpoint_filename(checkpoint_dir: str,
 
 
 def _is_checkpoint_name(file_name: str) -> bool:
-  path = pathlib.Path(file_name)
-  if path.suffix != '.pkl':
-    return False
-
-  parts = path.stem.split('_')
-  if len(parts) != 2:
-    return False
-
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  """Whether file_name is a name that _make_checkpoint_filename produces."""
+  return re.fullmatch(r'checkpoint_([0-9]{5}|[1-9][0-9]{5,})\.pkl',
+                      osp.basename(file_name)) is not None
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
@@ -87,21 +82,14 @@ def load_checkpoint(
 
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
-  glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
-  def extract_episode(x):
-    return int(x[x.rfind('checkpoint_') + 11:-4])
-
   try:
-    checkpoint_files = tf.io.gfile.glob(glob)
+    file_names = tf.io.gfile.listdir(checkpoint_dir)
   except tf.errors.NotFoundError:
     logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
     return -1
 
-  try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files)
-  except ValueError:
-    return -1
-  return latest_episode
+  return max((_get_checkpoint_iteration(x)
+              for x in file_names if _is_checkpoint_name(x)), default=-1)
 
 
 def clean_up_old_checkpoints(checkpoint_dir: str,
-- 
2.43.0


From 1599e77f7a320886020870cf4ee4adf6dfc29f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:39 +0000
Subject: [PATCH 17/26] fix: resume from the last readable checkpoint

A process that dies while writing a checkpoint leaves an incomplete file,
and every restart then failed with EOFError instead of resuming from the
checkpoint before it.
---
 .../agents/dopamine_utils.py                  | 44 ++++++++++++++++---
 .../agents/dqn_agent.py                       | 14 +-----
 .../agents/quantile_agent.py                  | 13 +-----
 3 files changed, 42 insertions(+), 29 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index e87e1b0..65ee4d0 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -19,7 +19,7 @@ import os.path as osp
 import pathlib
 import pickle
 import re
-from typing import Any, Dict, Callable
+from typing import Any, Dict, Callable, List
 
 from absl import logging
 import tensorflow as tf
@@ -80,16 +80,48 @@ def load_checkpoint(
     logging.warning('Call to parent `unbundle` failed.')
 
 
-def get_latest_checkpoint(checkpoint_dir: str) -> int:
-  """Find the episode ID of the latest checkpoint, if any."""
+def _get_checkpoint_iterations(checkpoint_dir: str) -> List[int]:
+  """Returns the iterations of the available checkpoints, latest first."""
   try:
     file_names = tf.io.gfile.listdir(checkpoint_dir)
   except tf.errors.NotFoundError:
     logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-    return -1
+    return []
+
+  return sorted((_get_checkpoint_iteration(x)
+                 for x in file_names if _is_checkpoint_name(x)), reverse=True)
+
+
+def get_latest_checkpoint(checkpoint_dir: str) -> int:
+  """Find the episode ID of the latest checkpoint, if any."""
+  return next(iter(_get_checkpoint_iterations(checkpoint_dir)), -1)
+
 
-  return max((_get_checkpoint_iteration(x)
-              for x in file_names if _is_checkpoint_name(x)), default=-1)
+def reload_latest_checkpoint(
+    checkpoint_dir: str,
+    load_fn: Callable[[str, int], None]) -> int:
+  """Load the latest checkpoint that is readable.
+
+  The latest checkpoint may be incomplete if the process that was writing it
+  died, in which case the one before it is the latest.
+
+  Args:
+    checkpoint_dir: Directory where checkpoints are stored.
+    load_fn: Function that loads the checkpoint of a given iteration.
+
+  Returns:
+    The iteration of the checkpoint that was loaded, or -1 if there is none.
+  """
+  for iteration in _get_checkpoint_iterations(checkpoint_dir):
+    try:
+      load_fn(checkpoint_dir, iteration)
+      logging.info('Will restart training from episode %d', iteration)
+      return iteration
+    except (EOFError, ValueError, pickle.UnpicklingError):
+      logging.warning('Unable to reload checkpoint %d at %s', iteration,
+                      checkpoint_dir)
+  logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
+  return -1
 
 
 def clean_up_old_checkpoints(checkpoint_dir: str,
diff --git a/balloon_learning_environment/agents/dqn_agent.py b/balloon_learning_environment/agents/dqn_agent.py
index 606b083..2c57ab8 100644
--- a/balloon_learning_environment/agents/dqn_agent.py
+++ b/balloon_learning_environment/agents/dqn_agent.py
@@ -18,7 +18,6 @@
 import functools
 from typing import Optional, Sequence, Union
 
-from absl import logging
 from balloon_learning_environment.agents import agent
 from balloon_learning_environment.agents import dopamine_utils
 from dopamine.jax.agents.dqn import dqn_agent
@@ -129,14 +128,5 @@ class DQNAgent(agent.Agent, dqn_agent.JaxDQNAgent):
         functools.partial(dqn_agent.JaxDQNAgent.unbundle, self))
 
   def reload_latest_checkpoint(self, checkpoint_dir: str) -> int:
-    latest_episode = dopamine_utils.get_latest_checkpoint(checkpoint_dir)
-    if latest_episode < 0:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
-    try:
-      self.load_checkpoint(checkpoint_dir, latest_episode)
-      logging.info('Will restart training from episode %d', latest_episode)
-      return latest_episode
-    except ValueError:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
+    return dopamine_utils.reload_latest_checkpoint(checkpoint_dir,
+                                                   self.load_checkpoint)
diff --git a/balloon_learning_environment/agents/quantile_agent.py b/balloon_learning_environment/agents/quantile_agent.py
index 79e31a0..996b4f9 100644
--- a/balloon_learning_environment/agents/quantile_agent.py
+++ b/balloon_learning_environment/agents/quantile_agent.py
@@ -187,17 +187,8 @@ class QuantileAgent(agent.Agent, quantile_agent.JaxQuantileAgent):
         functools.partial(quantile_agent.JaxQuantileAgent.unbundle, self))
 
   def reload_latest_checkpoint(self, checkpoint_dir: str) -> int:
-    latest_episode = dopamine_utils.get_latest_checkpoint(checkpoint_dir)
-    if latest_episode < 0:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
-    try:
-      self.load_checkpoint(checkpoint_dir, latest_episode)
-      logging.info('Will restart training from episode %d', latest_episode)
-      return latest_episode
-    except ValueError:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
+    return dopamine_utils.reload_latest_checkpoint(checkpoint_dir,
+                                                   self.load_checkpoint)
 
   @staticmethod
   def load_perciatelli_weights() -> flax.core.FrozenDict:
-- 
2.43.0


From f26467375276642a3926835186e440c2aee21614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 18/26] fix: combine_eval_shards mixes in the shards of models
 sharing a name prefix

The glob '{model}_*.json' also matches the files of any model whose name
extends this one ('random_walk_0.json' for 'random', or the combined
'random_walk.json' itself), so their results were merged. Only
'{model}_{shard_idx}.json' files are shards of the model.
---
 balloon_learning_environment/eval/combine_eval_shards.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..2fa2daa 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -45,7 +45,12 @@ def main(argv: Sequence[str]) -> None:
   for model in FLAGS.models:
     data = list()
 
-    for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+    # Only '{model}_{shard_idx}.json' files are shards of this model: other
+    # models (e.g. random_walk, for random) may share the prefix.
+    prefix = os.path.join(FLAGS.path, f'{model}_')
+    for path in glob.glob(f'{glob.escape(prefix)}*.json'):
+      if not path[len(prefix):-len('.json')].isdigit():
+        continue
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From 3f01d94738d0aa630bc3d57ae3c653dda9dae067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 19/26] fix: random walk target step grows with the length of
 the episode

The step is meant to be proportional to the time since the target was last
updated, but the elapsed time was only reset when an episode began, so the
target left the atmosphere within an hour or two of flight.
---
 balloon_learning_environment/agents/random_walk_agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/balloon_learning_environment/agents/random_walk_agent.py b/balloon_learning_environment/agents/random_walk_agent.py
index ac9f633..cce220d 100644
--- a/balloon_learning_environment/agents/random_walk_agent.py
+++ b/balloon_learning_environment/agents/random_walk_agent.py
@@ -88,6 +88,7 @@ class RandomWalkAgent(agent.Agent):
     self._rng, rng = jax.random.split(self._rng)
     self._target_pressure += (
         self._time_elapsed.total_seconds() * _STDDEV * jax.random.normal(rng))
+    self._time_elapsed = dt.timedelta()
     return self._select_action(observation)
 
   def end_episode(self, reward: float, terminal: bool = True) -> None:
-- 
2.43.0


From 8cdc3c73f5903d1a57b25fc3edc7482dec4011b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 20/26] fix: load_perciatelli44 does not raise the documented
 error when no model exists

GFile raises NotFoundError, not FileNotFoundError, for a missing file.
---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From c9525ee3d61c53252fdd53de2b57016f3179216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 21/26] fix: get_collector_data fails when called without
 collectors

---
 balloon_learning_environment/train_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index 768b3c0..3f5e48f 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -29,7 +29,7 @@ def get_collector_data(
 ) -> List[collector_dispatcher.CollectorConstructorType]:
   """Returns a list of gin files and constructors for each passed collector."""
   collector_constructors = []
-  for c in collectors:
+  for c in collectors or ():
     if c not in collector_dispatcher.AVAILABLE_COLLECTORS:
       continue
     collector_constructors.append(
-- 
2.43.0


From 2f8f6c2645a8ac0e500609467c891b4a44848227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 22/26] fix: MatplotlibRenderer cannot render to an array with
 matplotlib >= 3.10

FigureCanvasAgg.tostring_rgb was removed; buffer_rgba exists in old and new
versions.
---
 .../env/rendering/matplotlib_renderer.py                    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..a3a2115 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,8 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      # tostring_rgb was removed in matplotlib 3.10.
+      frame = np.array(self._fig.canvas.buffer_rgba())[..., :3]
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From 1004ceea62afd6f2e7478f5502b8e0b289998a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 23/26] fix: BalloonArena.reset ignores numpy integer seeds

They fell through to the branch which seeds with the current time.
---
 balloon_learning_environment/env/balloon_arena.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon_arena.py b/balloon_learning_environment/env/balloon_arena.py
index f15e68a..75c6f5a 100644
--- a/balloon_learning_environment/env/balloon_arena.py
+++ b/balloon_learning_environment/env/balloon_arena.py
@@ -159,7 +159,7 @@ class BalloonArena(BalloonArenaInterface):
     self.reset(seed)
 
   def reset(self, seed: Union[int, jnp.ndarray, None] = None) -> np.ndarray:
-    if isinstance(seed, int):
+    if isinstance(seed, (int, np.integer)):
       self._rng = jax.random.PRNGKey(seed)
     elif isinstance(seed, (np.ndarray, jnp.ndarray)):
       self._rng = seed
-- 
2.43.0


From 41d460118aa4b132c551e0c22f2d814cc55bb8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 24/26] fix: WindFieldVAE decodes to its own field shape

---
 balloon_learning_environment/generative/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index 9fcd3a6..5838df4 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -195,7 +195,7 @@ class WindFieldVAE(nn.Module):
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-    self.decoder = Decoder()
+    self.decoder = Decoder(field_shape=self.field_shape)
     self.sigma = self.variable('params', 'sigma', lambda: 1.)
 
   def __call__(self, x: jnp.ndarray, z_rng: jnp.ndarray) -> VAEOutput:
-- 
2.43.0


From 044955f2cd1487c0c4fd72834b463c93f549e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 25/26] fix: an empty evaluation set is empty, not the whole
 data set

---
 .../generative/dataset_wind_field_reservoir.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
index e1a6b52..f97ea65 100644
--- a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
+++ b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
@@ -78,4 +78,4 @@ class DatasetWindFieldReservoir(wind_field_reservoir.WindFieldReservoir):
       vae.py).
     """
 
-    return self.dataset[-self.eval_batch_size:, ...]
+    return self.dataset[self.dataset.shape[0] - self.eval_batch_size:, ...]
-- 
2.43.0


From 9983bd0b5b6337f28f089b1bc1f27c5df8eacab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:44 +0000
Subject: [PATCH 26/26] fix: restarting a finished training run no longer fails
 at the final picture

---
 balloon_learning_environment/train.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/train.py b/balloon_learning_environment/train.py
index 9dc86ff..f36d385 100644
--- a/balloon_learning_environment/train.py
+++ b/balloon_learning_environment/train.py
@@ -104,7 +104,11 @@ def main(_) -> None:
 
   if FLAGS.base_dir is not None:
     image_save_path = osp.join(FLAGS.base_dir, 'balloon_path.png')
-    img = env.render(mode='rgb_array')
+    try:
+      img = env.render(mode='rgb_array')
+    except gym.error.ResetNeeded:
+      # Training had already finished before this run: there is no flight.
+      img = None
     if isinstance(img, np.ndarray):
       matplotlib.image.imsave(image_save_path, img)
 
-- 
2.43.0

