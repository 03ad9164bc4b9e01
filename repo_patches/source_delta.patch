From 07dcfeac4b8534c646386f20a1c8793e692a5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 01/11] fix: convert heat uptake terms to model units in
 impulse response model

The magnitudes of lambda0 and of the efficacy term were used in whatever
units the parameters happened to be given in, so equivalent parameters in
different units (e.g. parameters converted from a two-layer model whose depth
is in cm) gave a wrong heat uptake or an AssertionError.
---
 src/openscm_twolayermodel/impulse_response_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..4bda502 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -215,7 +215,9 @@ class ImpulseResponseModel(
 
     def _calculate_next_rndt(self, t1, t2, erf, efficacy):
         two_layer_paras = self.get_two_layer_parameters()
-        lambda0 = two_layer_paras["lambda0"]
+        lambda0 = two_layer_paras["lambda0"].to(
+            "{}/({})".format(self._erf_unit, self._temp1_unit)
+        )
 
         if np.equal(efficacy, 1):
             efficacy_term = 0 * ur(self._erf_unit)
@@ -234,10 +236,7 @@ class ImpulseResponseModel(
                 two_layer_paras["eta"]
                 * (efficacy - 1)
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
-            )
-
-            if str(efficacy_term.units) != "watt / meter ** 2":
-                raise AssertionError("units should have come out as W/m^2")
+            ).to(self._erf_unit)
 
         out = erf - lambda0.magnitude * (t1 + t2) - efficacy_term.magnitude
 
-- 
2.43.0


From 041fbcd0770a28617720917ea95222a5d76ef252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 02/11] fix: select the timestep of each scenario from its own
 time axis

The timestep was selected once, from the union of the time axes of all
scenarios, while each scenario is run on its own (NaN-free) time axis. A
decadal scenario passed with a yearly one was silently run with yearly steps
(a yearly one passed with a monthly one with monthly steps, and gaps in a
timeseries were silently skipped).
---
 src/openscm_twolayermodel/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..767f806 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -223,9 +223,6 @@ class TwoLayerVariant(Model):
         for k, v in save_paras_meta.items():
             driver[k] = v
 
-        timestep = self._select_timestep(driver)
-        self.delta_t = timestep
-
         run_store = list()
 
         driver_ts = driver.timeseries()
@@ -238,13 +235,14 @@ class TwoLayerVariant(Model):
             meta = dict(zip(driver_ts.index.names, label))
             row_no_nan = row.dropna()
 
+            out_run_tss_base = row_no_nan.to_frame().T
+            out_run_tss_base.index.names = driver_ts.index.names
+
+            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
             self.set_drivers(row_no_nan.values * ur(meta["unit"]))
             self.reset()
             self.run()
 
-            out_run_tss_base = row_no_nan.to_frame().T
-            out_run_tss_base.index.names = driver_ts.index.names
-
             out_run_tss = [out_run_tss_base]
             out_run_tss += self._get_run_output_tss(out_run_tss[0])
 
-- 
2.43.0


From 154ff33fef0bada977b157e566d38afec87590fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 03/11] fix: don't alter the caller's data frame in
 run_scenarios

ScmRun resets the index of the data frame it is given, hence
run_scenarios(df) dropped the index (i.e. all the metadata) of df.
---
 src/openscm_twolayermodel/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 767f806..87360f3 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -135,6 +135,11 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
         if not isinstance(scenarios, ScmRun):
+            # ScmRun can alter the object it is initialised with (e.g. the index of
+            # a pd.DataFrame) so don't give it the user's object
+            if hasattr(scenarios, "copy"):
+                scenarios = scenarios.copy()
+
             driver = ScmRun(scenarios)
         else:
             driver = scenarios.copy()
-- 
2.43.0


From 23c01508607752eecd66b3f3a8ee33c579debda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 04/11] fix: don't treat every change of year as a yearly
 timestep

A December to January axis (or any irregular axis with one point in each of
consecutive years) was silently run with yearly timesteps.
---
 src/openscm_twolayermodel/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 87360f3..986a6af 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -158,11 +158,17 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _select_timestep(driver):
         year_diff = driver["year"].diff().dropna()
-        if (year_diff == 1).all():
+        time_diff = driver["time"].diff().dropna()
+        # a change of year alone isn't enough, e.g. December to January
+        if (year_diff == 1).all() and all(
+            np.logical_and(
+                time_diff <= np.timedelta64(400, "D"),
+                time_diff >= np.timedelta64(330, "D"),
+            )
+        ):
             # assume yearly timesteps
             return 1 * ur("yr")
 
-        time_diff = driver["time"].diff().dropna()
         if all(
             np.logical_and(
                 time_diff <= np.timedelta64(31, "D"),
-- 
2.43.0


From 27e8608bc4deece64c530b4551b86418b4252c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 05/11] fix: don't run the impulse response model with d1 >= d2

d1 < d2 was only checked at initialisation. Changing d1 or d2 afterwards
silently gave a wrong heat uptake for efficacy != 1 (the short and long
timescale terms were mixed up).
---
 src/openscm_twolayermodel/impulse_response_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index 4bda502..42684b8 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -161,6 +161,9 @@ class ImpulseResponseModel(
                 ":meth:`self.set_drivers` first."
             )
 
+        if self.d1 >= self.d2:
+            raise ModelStateError("The short-timescale must be d1")
+
         self._timestep_idx = np.nan
         self._temp1_mag = np.zeros_like(self._erf_mag) * np.nan
         self._temp2_mag = np.zeros_like(self._erf_mag) * np.nan
-- 
2.43.0


From 165f44e863c6ce17d5f91d838c29d6edbe1e02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 06/11] fix: look up the version in the package's own
 repository whatever GIT_DIR says

Within git hooks, rebase --exec and the like, git sets GIT_DIR (and
GIT_INDEX_FILE, ...) for its own repository. The version reported by a
checkout was then that of another repository.
---
 src/openscm_twolayermodel/_version.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/openscm_twolayermodel/_version.py b/src/openscm_twolayermodel/_version.py
index 4e6edcd..62a2967 100644
--- a/src/openscm_twolayermodel/_version.py
+++ b/src/openscm_twolayermodel/_version.py
@@ -11,6 +11,7 @@
 """Git implementation of _version.py."""
 
 import errno
+import functools
 import os
 import re
 import subprocess
@@ -225,6 +226,13 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
+    # variables set by git (e.g. in hooks) which point at some other repository
+    # must not interfere with looking at the one in root
+    env = {k: v for k, v in os.environ.items()
+           if k not in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE",
+                        "GIT_COMMON_DIR", "GIT_OBJECT_DIRECTORY")}
+    run_command = functools.partial(run_command, env=env)
+
     out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                           hide_stderr=True)
     if rc != 0:
-- 
2.43.0


From 8e028806bfcbfffa20a5de49583f1a8a530424af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 07/11] fix: don't fail on scenarios without any data in
 run_scenarios

---
 src/openscm_twolayermodel/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 986a6af..96cf4c3 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -236,7 +236,13 @@ class TwoLayerVariant(Model):
 
         run_store = list()
 
-        driver_ts = driver.timeseries()
+        # rows without any data have nothing to run
+        driver_ts = driver.timeseries().dropna(how="all")
+        if driver_ts.empty:
+            raise ValueError(
+                "No World data available for driver_var `{}`".format(driver_var)
+            )
+
         for i, (label, row) in tqdman.tqdm(
             enumerate(driver_ts.iterrows()),
             desc="scenarios",
-- 
2.43.0


From 6b4c2e519a8a0e4ee2e7d067247860d1a003003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:33 +0000
Subject: [PATCH 08/11] fix: keep results in double precision for forcing given
 in single or half precision

---
 src/openscm_twolayermodel/impulse_response_model.py | 6 +++---
 src/openscm_twolayermodel/two_layer_model.py        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index 42684b8..b1660da 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -165,9 +165,9 @@ class ImpulseResponseModel(
             raise ModelStateError("The short-timescale must be d1")
 
         self._timestep_idx = np.nan
-        self._temp1_mag = np.zeros_like(self._erf_mag) * np.nan
-        self._temp2_mag = np.zeros_like(self._erf_mag) * np.nan
-        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan
+        self._temp1_mag = np.zeros_like(self._erf_mag, dtype=float) * np.nan
+        self._temp2_mag = np.zeros_like(self._erf_mag, dtype=float) * np.nan
+        self._rndt_mag = np.zeros_like(self._erf_mag, dtype=float) * np.nan
 
     def _run(self):
         for _ in self.erf:
diff --git a/src/openscm_twolayermodel/two_layer_model.py b/src/openscm_twolayermodel/two_layer_model.py
index 32ea204..9fa1e7b 100644
--- a/src/openscm_twolayermodel/two_layer_model.py
+++ b/src/openscm_twolayermodel/two_layer_model.py
@@ -191,9 +191,9 @@ class TwoLayerModel(TwoLayerVariant):  # pylint: disable=too-many-instance-attri
             )
 
         self._timestep_idx = np.nan
-        self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan
-        self._temp_lower_mag = np.zeros_like(self._erf_mag) * np.nan
-        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan
+        self._temp_upper_mag = np.zeros_like(self._erf_mag, dtype=float) * np.nan
+        self._temp_lower_mag = np.zeros_like(self._erf_mag, dtype=float) * np.nan
+        self._rndt_mag = np.zeros_like(self._erf_mag, dtype=float) * np.nan
 
     def _run(self):
         for _ in self.erf:
-- 
2.43.0


From 371f7930b0d5375286b60d4316dde45b7d5b6995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:33 +0000
Subject: [PATCH 09/11] fix: parameter conversions overflowed for parameters
 given as numpy integers

---
 src/openscm_twolayermodel/base.py                   |  5 +++++
 src/openscm_twolayermodel/impulse_response_model.py | 10 +++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 96cf4c3..62e5a07 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -291,6 +291,11 @@ class TwoLayerVariant(Model):
 def _calculate_geoffroy_helper_parameters(  # pylint:disable=too-many-locals
     du, dl, lambda0, efficacy, eta
 ):
+    # products of (numpy) integers can overflow
+    lambda0 = 1.0 * lambda0
+    efficacy = 1.0 * efficacy
+    eta = 1.0 * eta
+
     C = du * HEAT_CAPACITY_WATER * DENSITY_WATER
     C_D = dl * HEAT_CAPACITY_WATER * DENSITY_WATER
 
diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index b1660da..5fdd482 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -300,14 +300,18 @@ class ImpulseResponseModel(
             :obj:`openscm_twolayermodel.TwoLayerModel` with the same
             temperature response as ``self``
         """
+        # products of (numpy) integers, e.g. time scales in seconds, can overflow
+        d1 = 1.0 * self.d1
+        d2 = 1.0 * self.d2
+
         lambda0 = 1 / (self.q1 + self.q2)
-        C = (self.d1 * self.d2) / (self.q1 * self.d2 + self.q2 * self.d1)
+        C = (d1 * d2) / (self.q1 * d2 + self.q2 * d1)
 
         a1 = lambda0 * self.q1
         a2 = lambda0 * self.q2
 
-        C_D = (lambda0 * (self.d1 * a1 + self.d2 * a2) - C) / self.efficacy
-        eta = C_D / (self.d1 * a2 + self.d2 * a1)
+        C_D = (lambda0 * (d1 * a1 + d2 * a2) - C) / self.efficacy
+        eta = C_D / (d1 * a2 + d2 * a1)
 
         du = C / (DENSITY_WATER * HEAT_CAPACITY_WATER)
         dl = C_D / (DENSITY_WATER * HEAT_CAPACITY_WATER)
-- 
2.43.0


From 0b3cb020aab8888dc5ea59d9b21a113e3927cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 10/11] fix: keep the depths and their heat capacities together
 when a depth is refused

The depth was stored before its heat capacity was calculated, so a quantity of
another unit registry (which the calculation refuses) was left behind in du and
dl while runs carried on with the heat capacity of the previous depth.
---
 src/openscm_twolayermodel/two_layer_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/openscm_twolayermodel/two_layer_model.py b/src/openscm_twolayermodel/two_layer_model.py
index 9fa1e7b..015801f 100644
--- a/src/openscm_twolayermodel/two_layer_model.py
+++ b/src/openscm_twolayermodel/two_layer_model.py
@@ -88,11 +88,11 @@ class TwoLayerModel(TwoLayerVariant):  # pylint: disable=too-many-instance-attri
     @du.setter
     def du(self, val):
         self._assert_is_pint_quantity_with_units(val, "du", self._du_unit)
+        heat_capacity = val * DENSITY_WATER * HEAT_CAPACITY_WATER
+        heat_capacity_mag = heat_capacity.to(self._heat_capacity_upper_unit).magnitude
         self._du = val
         self._du_mag = val.to(self._du_unit).magnitude
-        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
-            self._heat_capacity_upper_unit
-        ).magnitude
+        self._heat_capacity_upper_mag = heat_capacity_mag
 
     @property
     def heat_capacity_upper(self):
@@ -113,11 +113,11 @@ class TwoLayerModel(TwoLayerVariant):  # pylint: disable=too-many-instance-attri
     @dl.setter
     def dl(self, val):
         self._assert_is_pint_quantity_with_units(val, "dl", self._dl_unit)
+        heat_capacity = val * DENSITY_WATER * HEAT_CAPACITY_WATER
+        heat_capacity_mag = heat_capacity.to(self._heat_capacity_lower_unit).magnitude
         self._dl = val
         self._dl_mag = val.to(self._dl_unit).magnitude
-        self._heat_capacity_lower_mag = self.heat_capacity_lower.to(
-            self._heat_capacity_lower_unit
-        ).magnitude
+        self._heat_capacity_lower_mag = heat_capacity_mag
 
     @property
     def heat_capacity_lower(self):
-- 
2.43.0


From ba03531a63f13d44934ce2950c1c0d9bc6dff5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:44 +0000
Subject: [PATCH 11/11] fix: note why depths are stored after their heat
 capacities are known

---
 src/openscm_twolayermodel/two_layer_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openscm_twolayermodel/two_layer_model.py b/src/openscm_twolayermodel/two_layer_model.py
index 015801f..88c4560 100644
--- a/src/openscm_twolayermodel/two_layer_model.py
+++ b/src/openscm_twolayermodel/two_layer_model.py
@@ -88,6 +88,7 @@ class TwoLayerModel(TwoLayerVariant):  # pylint: disable=too-many-instance-attri
     @du.setter
     def du(self, val):
         self._assert_is_pint_quantity_with_units(val, "du", self._du_unit)
+        # can fail (e.g. quantity of another unit registry), so before storing anything
         heat_capacity = val * DENSITY_WATER * HEAT_CAPACITY_WATER
         heat_capacity_mag = heat_capacity.to(self._heat_capacity_upper_unit).magnitude
         self._du = val
@@ -113,6 +114,7 @@ class TwoLayerModel(TwoLayerVariant):  # pylint: disable=too-many-instance-attri
     @dl.setter
     def dl(self, val):
         self._assert_is_pint_quantity_with_units(val, "dl", self._dl_unit)
+        # can fail (e.g. quantity of another unit registry), so before storing anything
         heat_capacity = val * DENSITY_WATER * HEAT_CAPACITY_WATER
         heat_capacity_mag = heat_capacity.to(self._heat_capacity_lower_unit).magnitude
         self._dl = val
-- 
2.43.0

