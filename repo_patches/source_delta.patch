From d788cc465cb7d2ad911c70b0731ee30c2af461a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 1/9] fix: convert units when calculating impulse response heat
 uptake

The feedback parameter and efficacy term were used without converting them to
W/m^2/delta_degC and W/m^2, so heat uptake was silently wrong, or an
AssertionError was raised, if q1, q2, d1, d2 or efficacy used other units.
---
 src/openscm_twolayermodel/impulse_response_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..b967e87 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -33,6 +33,7 @@ class ImpulseResponseModel(
     _q1_unit = "delta_degC/(W/m^2)"
     _q2_unit = "delta_degC/(W/m^2)"
     _efficacy_unit = "dimensionless"
+    _lambda0_unit = "W/m^2/delta_degC"
     _delta_t_unit = "yr"
 
     _erf_unit = "W/m^2"
@@ -215,10 +216,10 @@ class ImpulseResponseModel(
 
     def _calculate_next_rndt(self, t1, t2, erf, efficacy):
         two_layer_paras = self.get_two_layer_parameters()
-        lambda0 = two_layer_paras["lambda0"]
+        lambda0_mag = two_layer_paras["lambda0"].to(self._lambda0_unit).magnitude
 
         if np.equal(efficacy, 1):
-            efficacy_term = 0 * ur(self._erf_unit)
+            efficacy_term_mag = 0.0
         else:
             gh = _calculate_geoffroy_helper_parameters(
                 two_layer_paras["du"],
@@ -236,10 +237,9 @@ class ImpulseResponseModel(
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
             )
 
-            if str(efficacy_term.units) != "watt / meter ** 2":
-                raise AssertionError("units should have come out as W/m^2")
+            efficacy_term_mag = efficacy_term.to(self._rndt_unit).magnitude
 
-        out = erf - lambda0.magnitude * (t1 + t2) - efficacy_term.magnitude
+        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag
 
         return out
 
-- 
2.43.0


From db9c0e7524847357f9d386f6b204460236243a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 2/9] fix: refuse scenarios with gaps in their time axis

Missing values were dropped per scenario after the time step had been chosen
from the joint time axis, so a scenario with gaps (or with a coarser time axis
than the rest of the batch) was silently run as if it were contiguous.
---
 src/openscm_twolayermodel/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..753d22a 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -238,6 +238,12 @@ class TwoLayerVariant(Model):
             meta = dict(zip(driver_ts.index.names, label))
             row_no_nan = row.dropna()
 
+            idx_no_nan = np.flatnonzero(row.notna())
+            if (np.diff(idx_no_nan) != 1).any():
+                raise NotImplementedError(
+                    "Gaps in the time axis are not supported, scenario: {}".format(meta)
+                )
+
             self.set_drivers(row_no_nan.values * ur(meta["unit"]))
             self.reset()
             self.run()
-- 
2.43.0


From 57c93ef928f020cfbdf53b9c6c083789e1f4f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 3/9] fix: fall back to unknown version if git rev-list or git
 show fails

Importing the package raised a TypeError or AttributeError in that case.
---
 src/openscm_twolayermodel/_version.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/_version.py b/src/openscm_twolayermodel/_version.py
index 4e6edcd..9791660 100644
--- a/src/openscm_twolayermodel/_version.py
+++ b/src/openscm_twolayermodel/_version.py
@@ -295,11 +295,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From 18485c2a64f668549d247dbbf370398edc56ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 4/9] fix: use a monthly time step for two months across the
 turn of the year

A series consisting of a December and the following January was run with a
time step of one year because the year changes at every one of its steps.
---
 src/openscm_twolayermodel/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 753d22a..6529354 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -153,11 +153,13 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _select_timestep(driver):
         year_diff = driver["year"].diff().dropna()
-        if (year_diff == 1).all():
+        time_diff = driver["time"].diff().dropna()
+        # from December to January the year changes too, but it's only one month
+        is_sub_yearly = (time_diff <= np.timedelta64(31, "D")).any()
+        if (year_diff == 1).all() and not is_sub_yearly:
             # assume yearly timesteps
             return 1 * ur("yr")
 
-        time_diff = driver["time"].diff().dropna()
         if all(
             np.logical_and(
                 time_diff <= np.timedelta64(31, "D"),
-- 
2.43.0


From 771baa076fd583fb7a2e5c5c0dd6bb2389c35f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 5/9] fix: do not modify data frames passed to run_scenarios

Initialising an ScmRun resets the index of a data frame which holds its
metadata in its index (e.g. the output of ScmRun.timeseries) in place.
---
 src/openscm_twolayermodel/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 6529354..e8587ca 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -135,6 +135,10 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
         if not isinstance(scenarios, ScmRun):
+            if isinstance(scenarios, (pd.DataFrame, pd.Series)):
+                # ScmRun's initialiser may alter its input in place
+                scenarios = scenarios.copy()
+
             driver = ScmRun(scenarios)
         else:
             driver = scenarios.copy()
-- 
2.43.0


From bb619943f5bf37b3b2b5d06c9ab0854be4f91d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 6/9] fix: ignore time points at which there is no driver data
 when running scenarios

Series other than the driver could make a scenario set unusable if they
had data on other time points (e.g. monthly data next to annual forcing).
---
 src/openscm_twolayermodel/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index e8587ca..3519baa 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -225,6 +225,9 @@ class TwoLayerVariant(Model):
                 "No World data available for driver_var `{}`".format(driver_var)
             )
 
+        # time points at which only other series have data must not affect the run
+        driver = ScmRun(driver.timeseries().dropna(axis="columns", how="all"))
+
         driver["climate_model"] = self._name
         for k, v in save_paras_meta.items():
             driver[k] = v
-- 
2.43.0


From 5d1c47c8d3197ab5ef65d6a40eb8e7b2c47aee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 7/9] fix: do not fail to import if git prints undecodable
 bytes

Importing the package raised a UnicodeDecodeError if git was cut off in the
middle of a character or if a tag name was not valid UTF-8.
---
 src/openscm_twolayermodel/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/_version.py b/src/openscm_twolayermodel/_version.py
index 9791660..8297c35 100644
--- a/src/openscm_twolayermodel/_version.py
+++ b/src/openscm_twolayermodel/_version.py
@@ -95,7 +95,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        stdout = stdout.decode(errors="replace")
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
-- 
2.43.0


From f941b96bcf8e1ef98f736c6689cf3231cda5d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 8/9] fix: do not fail to import if git prints nothing

Importing the package raised a ValueError if git (for example a stub) printed
nothing but reported success.
---
 src/openscm_twolayermodel/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/_version.py b/src/openscm_twolayermodel/_version.py
index 8297c35..1ee1f18 100644
--- a/src/openscm_twolayermodel/_version.py
+++ b/src/openscm_twolayermodel/_version.py
@@ -295,7 +295,7 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        if count_out is None:
+        if not count_out:
             raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
-- 
2.43.0


From 9f90f54ee2dae4b2f2e166ddedcebcf55adf032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:03 +0000
Subject: [PATCH 9/9] fix: do not let changes of converted parameters reach the
 model

The converted parameter sets contained the model's own efficacy (for default
models even the default of the class), so that converting it in place to other
units changed what the model and all later default models report and write
into their results.
---
 src/openscm_twolayermodel/impulse_response_model.py | 4 +++-
 src/openscm_twolayermodel/two_layer_model.py        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index b967e87..63b3a16 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -4,6 +4,8 @@ Module containing the impulse response model
 The 2-timescale impulse response model is mathematically equivalent to the
 two-layer model without state dependence.
 """
+import copy
+
 import numpy as np
 from openscm_units import unit_registry as ur
 
@@ -315,7 +317,7 @@ class ImpulseResponseModel(
             "du": du,
             "dl": dl,
             "eta": eta,
-            "efficacy": self.efficacy,
+            "efficacy": copy.copy(self.efficacy),
         }
 
         return out
diff --git a/src/openscm_twolayermodel/two_layer_model.py b/src/openscm_twolayermodel/two_layer_model.py
index 32ea204..d7db14b 100644
--- a/src/openscm_twolayermodel/two_layer_model.py
+++ b/src/openscm_twolayermodel/two_layer_model.py
@@ -1,6 +1,8 @@
 """
 Module containing the two-layer model
 """
+import copy
+
 import numpy as np
 from openscm_units import unit_registry as ur
 
@@ -349,7 +351,7 @@ class TwoLayerModel(TwoLayerVariant):  # pylint: disable=too-many-instance-attri
             "d2": d2,
             "q1": q1,
             "q2": q2,
-            "efficacy": self.efficacy,
+            "efficacy": copy.copy(self.efficacy),
         }
 
         return out
-- 
2.43.0

