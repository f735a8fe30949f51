From 40279ae930c3c2c4907aedc31550cfb41a6f4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 001/108] fix: accept scalar time bounds for several query
 points in range_search

---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d0c658d..e54e87a 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -566,14 +566,14 @@ class ObsTable:
             if t_min is None:
                 t_min = np.full(num_queries, -np.inf)
             else:
-                t_min = np.atleast_1d(t_min)
+                t_min = np.full(num_queries, t_min) if np.isscalar(t_min) else np.atleast_1d(t_min)
             if len(t_min) != num_queries:
                 raise ValueError(f"t_min must be a scalar or an array of length {num_queries}.")
 
             if t_max is None:
                 t_max = np.full(num_queries, np.inf)
             else:
-                t_max = np.atleast_1d(t_max)
+                t_max = np.full(num_queries, t_max) if np.isscalar(t_max) else np.atleast_1d(t_max)
             if len(t_max) != num_queries:
                 raise ValueError(f"t_max must be a scalar or an array of length {num_queries}.")
 
-- 
2.43.0


From da4f95ea4cf1fa08228440c0428b299d9878e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 002/108] fix: keep ObsTable row labels and filters in step
 with the current rows

---
 src/lightcurvelynx/obstable/obs_table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index e54e87a..12bdf01 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -92,6 +92,9 @@ class ObsTable:
         else:
             self._table = table.copy()
 
+        # All searches return row positions, so the row labels must match them.
+        self._table.reset_index(drop=True, inplace=True)
+
         # Remap the columns to standard names. Start with the existing names (from the table)
         # and overwrite anything provided by the column map. Save the inverse mapping.
         name_map = {col: col for col in self._table.columns}
@@ -465,7 +468,9 @@ class ObsTable:
             mask[rows] = True
 
         # Filter the rows in-place and build a new kd-tree.
-        self._table = self._table[mask]
+        self._table = self._table[mask].reset_index(drop=True)
+        if "filter" in self._table.columns:
+            self.filters = np.unique(self._table["filter"])
         self._kd_tree = None
         self._build_kd_tree()
 
-- 
2.43.0


From bbdc7ea4f5896e9499025c032b6f67f98797df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 003/108] fix: renumber ZTFObsTable rows after dropping visits
 without seeing

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index ca1c0cf..7636f49 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -93,7 +93,9 @@ class ZTFObsTable(ObsTable):
 
         # replace invalid values in table
         self._table = self._table.replace("", np.nan)
-        self._table = self._table.dropna(subset=["fwhm"])
+        self._table = self._table.dropna(subset=["fwhm"]).reset_index(drop=True)
+        if "filter" in self._table.columns:
+            self.filters = np.unique(self._table["filter"])
 
         zp_values = calculate_zp_from_maglim(
             maglim=self._table["maglim"],
-- 
2.43.0


From c2a2d7a5ad74ea97a01fbd1153784e67d08e9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 004/108] fix: derive ZTF zero points from the survey values in
 use, not the defaults

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index 7636f49..27515a0 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -101,9 +101,9 @@ class ZTFObsTable(ObsTable):
             maglim=self._table["maglim"],
             sky=self._table["sky"],
             fwhm=self._table["fwhm"],
-            gain=_ztfcam_ccd_gain,
-            readnoise=_ztfcam_readout_noise,
-            darkcurrent=_ztfcam_dark_current,
+            gain=self.safe_get_survey_value("gain"),
+            readnoise=self.safe_get_survey_value("read_noise"),
+            darkcurrent=self.safe_get_survey_value("dark_current"),
             exptime=self._table["exptime"],
             nexposure=1,
         )
-- 
2.43.0


From 6d413925bb6f0abbc7bed1ba1c4adfd78ffda303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 005/108] fix: read the Roman multi-accum table from a given
 path

---
 src/lightcurvelynx/obstable/roman_obstable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index db90386..6d3c641 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -59,11 +59,11 @@ def _get_roman_char():
 
 def _get_ma_table(ma_table_path=None):
     if ma_table_path is None:
-        ma_table_file = (
+        ma_table_path = (
             _LIGHTCURVELYNX_BASE_DATA_DIR
             / "roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv"
         )
-    ma_table = pd.read_csv(ma_table_file)
+    ma_table = pd.read_csv(ma_table_path)
 
     return ma_table
 
-- 
2.43.0


From 9814747708eb0acda700f20c397fa98e0b975274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 006/108] fix: do not modify the caller's table in
 RomanObsTable

---
 src/lightcurvelynx/obstable/roman_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index 6d3c641..5273865 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -103,7 +103,7 @@ class RomanObsTable(ObsTable):
     def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
         colmap = self._default_colnames if colmap is None else colmap
 
-        self.apt_table = table
+        self.apt_table = table.copy()
         self.ma_table = _get_ma_table(ma_table_path)
         roman_char = _get_roman_char()
         self.zp_table = roman_char["zp_table"]
-- 
2.43.0


From 4a1d1104b97a550b24ff54f1c28d90c03a7fecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 007/108] fix: restore survey settings when reading a
 FakeObsTable from parquet

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 1 +
 src/lightcurvelynx/obstable/obs_table.py      | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index 999f4a3..b4deff5 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -103,6 +103,7 @@ class FakeObsTable(ObsTable):
             sky=sky,
             **kwargs,
         )
+        self.survey_values["const_flux_error"] = const_flux_error
 
         if const_flux_error is not None:
             # Convert a constant into a per-band dictionary.
diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 12bdf01..54eb77f 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -302,7 +302,10 @@ class ObsTable:
         if not Path(filename).is_file():
             raise FileNotFoundError(f"File {filename} not found.")
         survey_data = pd.read_parquet(filename)
-        return cls(survey_data)
+
+        # Pass the saved survey values explicitly, because the subclasses' constructors
+        # can have default arguments that would override the table's metadata.
+        return cls(survey_data, **survey_data.attrs.get("lightcurvelynx_survey_data", {}))
 
     def build_moc(self, *, radius=None, max_depth=10):
         """Build a Multi-Order Coverage Map from the regions in the data set.
-- 
2.43.0


From c37c7d7768ef7442d4088dfbf4a6122a2b15d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 008/108] fix: convert the survey pixel scale to degrees for
 detector footprints

---
 src/lightcurvelynx/obstable/obs_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 54eb77f..0c87f93 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -144,7 +144,10 @@ class ObsTable:
         # Create the footprint if one is provided.
         self._wcs = wcs
         if isinstance(detector_footprint, Region):
+            # The survey's pixel scale is in arcseconds while the footprint uses degrees.
             pixel_scale = self.survey_values.get("pixel_scale", None)
+            if pixel_scale is not None:
+                pixel_scale = pixel_scale / 3600.0
             detector_footprint = DetectorFootprint(detector_footprint, wcs=wcs, pixel_scale=pixel_scale)
         self._detector_footprint = detector_footprint
 
-- 
2.43.0


From 339b3fc1a00ea84aff19635da871c4b9d53948f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 009/108] fix: refresh the ObsTable search tree and filters
 when their columns are overwritten

---
 src/lightcurvelynx/obstable/obs_table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 0c87f93..cee212f 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -384,6 +384,12 @@ class ObsTable:
             values = np.full((len(self._table)), values)
         self._table[colname] = values
 
+        # Keep the cached information in step with the overwritten column.
+        if colname in ["ra", "dec"] and getattr(self, "_kd_tree", None) is not None:
+            self._build_kd_tree()
+        elif colname == "filter":
+            self.filters = np.unique(self._table["filter"])
+
     def write_db(self, filename, *, tablename="observations", overwrite=False):
         """Write out the observation table as a database to a given SQL table.
 
-- 
2.43.0


From 6fcb4b278e01a0c5a7cac8488b3477c599344b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 010/108] fix: do not truncate per-band zero points and
 extinctions to the first band's type

---
 src/lightcurvelynx/astro_utils/zeropoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/zeropoint.py b/src/lightcurvelynx/astro_utils/zeropoint.py
index 88182d5..3996091 100644
--- a/src/lightcurvelynx/astro_utils/zeropoint.py
+++ b/src/lightcurvelynx/astro_utils/zeropoint.py
@@ -51,8 +51,8 @@ def magnitude_electron_zeropoint(  # noqa: D103
     instr_zp = _lsstcam_zeropoint_per_sec_zenith if instr_zp is None else instr_zp
     ext_coeff = _lsstcam_extinction_coeff if ext_coeff is None else ext_coeff
 
-    instr_zp_getter = np.vectorize(instr_zp.get)
-    ext_coeff_getter = np.vectorize(ext_coeff.get)
+    instr_zp_getter = np.vectorize(instr_zp.get, otypes=[float])
+    ext_coeff_getter = np.vectorize(ext_coeff.get, otypes=[float])
 
     return instr_zp_getter(band) + ext_coeff_getter(band) * (airmass - 1) + 2.5 * np.log10(exptime)
 
-- 
2.43.0


From ff55b700364b137973dffdcdfe2a6a9c8322d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 011/108] fix: oversample opsim for any number of time points
 per band

---
 src/lightcurvelynx/obstable/opsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 622fb73..7920d25 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -324,7 +324,7 @@ def oversample_opsim(
             "time": new_times,
             "ra": ra,
             "dec": dec,
-            "filter": np.tile(bands, n // len(bands)),
+            "filter": np.resize(bands, n),
         }
     )
     other_columns = [column for column in observations.columns if column not in new_table.columns]
-- 
2.43.0


From 4045dd097af0caae92160075a98efff25d21c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 012/108] fix: report absent parameters of a single-node
 GraphState as missing

---
 src/lightcurvelynx/graph_state.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 08e3610..9dbf3c6 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -103,8 +103,7 @@ class GraphState:
         elif len(self.states) == 1:
             # Special case when we have only a single node stored in the graph state.
             node_state = list(self.states.values())[0]
-            if key in node_state:
-                return True
+            return key in node_state
         else:
             return False
 
@@ -170,8 +169,7 @@ class GraphState:
             node_state = list(self.states.values())[0]
             if key in node_state:
                 return node_state[key]
-        else:
-            raise KeyError(f"Unknown GraphState key: {key}")
+        raise KeyError(f"Unknown GraphState key: {key}")
 
     def copy(self):
         """Create a deep copy of the GraphState.
-- 
2.43.0


From 7f22ddd9003aba62bcd01d42d14d87027d137304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 013/108] fix: make GraphState.copy a deep copy for single
 samples too

---
 src/lightcurvelynx/graph_state.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 9dbf3c6..0263440 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -24,6 +24,8 @@ We could have one mean for an object's brightness and another for its positional
 of a host galaxy.
 """
 
+from copy import deepcopy
+
 import numpy as np
 from astropy.io import ascii
 from astropy.table import Table
@@ -184,10 +186,7 @@ class GraphState:
         for node_name, node_vars in self.states.items():
             new_state.states[node_name] = {}
             for var_name, var_value in node_vars.items():
-                if self.num_samples == 1:
-                    new_state.states[node_name][var_name] = var_value
-                else:
-                    new_state.states[node_name][var_name] = var_value.copy()
+                new_state.states[node_name][var_name] = deepcopy(var_value)
         for node_name, fixed_vars in self.fixed_vars.items():
             new_state.fixed_vars[node_name] = fixed_vars.copy()
         return new_state
-- 
2.43.0


From 46c75e3680af0f04eb290a0ca45d122566e09fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 014/108] fix: keep the fixed parameters when extracting a
 single sample

---
 src/lightcurvelynx/graph_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 0263440..65b998d 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -497,6 +497,7 @@ class GraphState:
         new_state.num_parameters = self.num_parameters
         for node_name in self.states:
             new_state.states[node_name] = {}
+            new_state.fixed_vars[node_name] = self.fixed_vars[node_name].copy()
             for var_name, value in self.states[node_name].items():
                 if self.num_samples == 1:
                     new_state.states[node_name][var_name] = value
-- 
2.43.0


From 8117b094275bc55d60a45fae7a34eb97834ffa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 015/108] fix: leave the GraphState unchanged when a value is
 rejected

---
 src/lightcurvelynx/graph_state.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 65b998d..ddde27e 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -404,33 +404,34 @@ class GraphState:
         if "." in node_name or "." in var_name:
             raise ValueError("GraphState names (node or variable) cannot contain the character '.'")
 
-        # Update the meta data.
-        if node_name not in self.states:
-            self.states[node_name] = {}
-            self.fixed_vars[node_name] = set()
-        if var_name not in self.states[node_name]:
-            self.num_parameters += 1
-
         # Check if this parameter is fixed. If so, skip the set.
-        if var_name in self.fixed_vars[node_name]:
+        if var_name in self.fixed_vars.get(node_name, set()):
             return
 
-        # Set the actual values.
+        # Get the actual values to store.
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
-            self.states[node_name][var_name] = value
+            new_value = value
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
-            self.states[node_name][var_name] = np.full(self.num_samples, value)
+            new_value = np.full(self.num_samples, value)
         elif len(value) != self.num_samples:
             raise ValueError(
                 f"Incompatible number of samples when setting GraphState for node={node_name}, "
                 f"variable={var_name}: {self.num_samples} vs {len(value)}."
             )
         elif force_copy:
-            self.states[node_name][var_name] = np.array(value.copy())
+            new_value = np.array(value.copy())
         else:
-            self.states[node_name][var_name] = np.asarray(value)
+            new_value = np.asarray(value)
+
+        # Save the values and update the meta data.
+        if node_name not in self.states:
+            self.states[node_name] = {}
+            self.fixed_vars[node_name] = set()
+        if var_name not in self.states[node_name]:
+            self.num_parameters += 1
+        self.states[node_name][var_name] = new_value
 
         # Mark the variable as fixed if needed.
         if fixed:
-- 
2.43.0


From 802901245ef9a50ea19bf81ce3efb67bd6c35c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 016/108] fix: compare GraphStates with non-numeric parameters

---
 src/lightcurvelynx/graph_state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index ddde27e..f5c2d8b 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -136,7 +136,11 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
-                if not np.allclose(var_value, other_params[var_name]):
+                other_value = other_params[var_name]
+                if np.asarray(var_value).dtype.kind in "biufc" and np.asarray(other_value).dtype.kind in "biufc":
+                    if not np.allclose(var_value, other_value):
+                        return False
+                elif not np.array_equal(var_value, other_value):
                     return False
 
         # Finally check that the 'fixed' dictionary is the same.
-- 
2.43.0


From 9496e95f99038bbbc4bcc848010a8fd202abf84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 017/108] fix: convert single-sample GraphStates to one-row
 tables

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index f5c2d8b..e9a744f 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -595,7 +595,9 @@ class GraphState:
         values = Table()
         for node_name, node_params in self.states.items():
             for param_name, param_value in node_params.items():
-                values[self.extended_param_name(node_name, param_name)] = np.array(param_value)
+                # The values of a single sample are stored without the sample dimension.
+                column = np.array([param_value]) if self.num_samples == 1 else np.array(param_value)
+                values[self.extended_param_name(node_name, param_name)] = column
         return values
 
     def to_dict(self):
-- 
2.43.0


From 30d817a8909c26924e2969a062564a384247beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 018/108] fix: include the members of multi-object models when
 sampling nested models and in the dependency reports

---
 .../models/multi_object_model.py              | 63 +++++++++++++++++--
 1 file changed, 59 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2098781..bb0e1ba 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -112,6 +112,65 @@ class MultiObjectModel(SEDModel):
                     self.add_parameter(param_name, setter, allow_gradient=False)
             self.obs_frame_effects.append(effect)
 
+    def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
+        """Internal recursive function to sample the parameters of each object
+        and then this model's own parameters.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        seen_nodes : dict
+            A dictionary mapping nodes strings seen during this sampling run to their object.
+            We use the same seen_nodes for all sampling calls so each node is sampled at most
+            one time regardless of link structure.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        """
+        if seen_nodes.get(str(self)) is not self:
+            for object in self.objects:
+                object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+        super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+
+    def _dependency_graph_helper(self, dependency_graph):
+        """Internal recursive function to build a directed acyclic graph (DAG) representing
+        the parameters in the model (including each object) and their dependencies.
+
+        Parameters
+        ----------
+        dependency_graph : DependencyGraph
+            An object tracking the dependencies between parameters. This object is modified
+            in place to represent the current state.
+        """
+        super()._dependency_graph_helper(dependency_graph)
+        for object in self.objects:
+            object._dependency_graph_helper(dependency_graph)
+
+    def build_pytree(self, graph_state, partial=None):
+        """Build a JAX PyTree representation of the variables in this graph,
+        including the variables of each object.
+
+        Parameters
+        ----------
+        graph_state : dict
+            A dictionary of dictionaries mapping node->hash, variable_name to value.
+        partial : dict
+            The partial results so far. This is modified in place by the function.
+            Default: None
+
+        Returns
+        -------
+        values : dict
+            A dictionary mapping node name to a dictionary mapping each variable's name
+            to its value.
+        """
+        partial = super().build_pytree(graph_state, partial)
+        for object in self.objects:
+            partial = object.build_pytree(graph_state, partial)
+        return partial
+
     def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
         """Sample the model's underlying parameters if they are provided by a function
         or ParameterizedModel.
@@ -140,15 +199,11 @@ class MultiObjectModel(SEDModel):
         if self.node_pos is None:
             self.set_graph_positions()
 
-        # We use the same seen_nodes for all sampling calls so each node
-        # is sampled at most one time regardless of link structure.
         graph_state = GraphState(num_samples)
         if given_args is not None:
             graph_state.update(given_args, all_fixed=True)
 
         seen_nodes = {}
-        for object in self.objects:
-            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
         self._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
 
         return graph_state
-- 
2.43.0


From 062ed6fe360f67a8b7252e00378012661184b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 019/108] fix: renumber the parameter graph when nodes were
 added or renumbered elsewhere

---
 src/lightcurvelynx/base_models.py             | 40 +++++++++++++++----
 .../models/multi_object_model.py              |  9 +++--
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index ffcbf26..f36b3a7 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -261,6 +261,34 @@ class ParameterizedNode:
             if setter_info.dependency is not None and setter_info.dependency is not self:
                 setter_info.dependency.set_graph_positions(seen_nodes)
 
+    def _list_dependencies(self):
+        """List the other nodes that this node directly depends on."""
+        return [
+            setter.dependency
+            for setter in self.setters.values()
+            if setter.dependency is not None and setter.dependency is not self
+        ]
+
+    def _update_graph_positions(self):
+        """Set the graph positions if they have never been set, if nodes have since been added
+        anywhere in the graph, or if renumbering (as part of another graph) made names collide.
+        """
+        nodes = {self}
+        names = {self.node_string}
+        needs_update = self.node_pos is None
+        to_check = [self]
+        while not needs_update and len(to_check) > 0:
+            for node in to_check.pop()._list_dependencies():
+                if node in nodes:
+                    continue
+                if node.node_pos is None or node.node_string in names:
+                    needs_update = True
+                nodes.add(node)
+                names.add(node.node_string)
+                to_check.append(node)
+        if needs_update:
+            self.set_graph_positions()
+
     def list_params(self):
         """Return a list of this node's parameterized values.
 
@@ -637,10 +665,8 @@ class ParameterizedNode:
         ValueError
             If the sampling encounters a problem with the order of dependencies.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure has never been set or has changed, do that now.
+        self._update_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         results = GraphState(num_samples)
@@ -702,10 +728,8 @@ class ParameterizedNode:
         dependency_graph : DependencyGraph
             An object tracking the dependencies between parameters.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure has never been set or has changed, do that now.
+        self._update_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         dependency_graph = DependencyGraph()
diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index bb0e1ba..d208889 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -63,6 +63,10 @@ class MultiObjectModel(SEDModel):
         self.objects = objects
         self.num_objects = len(objects)
 
+    def _list_dependencies(self):
+        """List the other nodes that this node directly depends on, including its objects."""
+        return super()._list_dependencies() + list(self.objects)
+
     def set_graph_positions(self, seen_nodes=None):
         """Force an update of the graph structure (numbering of each node).
 
@@ -195,9 +199,8 @@ class MultiObjectModel(SEDModel):
         graph_state : GraphState
             An object mapping graph parameters to their values.
         """
-        # If the graph has not been sampled ever, update the node positions for every node.
-        if self.node_pos is None:
-            self.set_graph_positions()
+        # If the graph has not been sampled ever (or has changed), update the positions of every node.
+        self._update_graph_positions()
 
         graph_state = GraphState(num_samples)
         if given_args is not None:
-- 
2.43.0


From 0980bc8678f66c091fb60502b829c468b9a05b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 020/108] fix: honour force_copy in GraphState.set for tuples
 and single samples

---
 src/lightcurvelynx/graph_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index e9a744f..d5b768f 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -415,7 +415,7 @@ class GraphState:
         # Get the actual values to store.
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
-            new_value = value
+            new_value = deepcopy(value) if force_copy else value
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
             new_value = np.full(self.num_samples, value)
@@ -425,7 +425,7 @@ class GraphState:
                 f"variable={var_name}: {self.num_samples} vs {len(value)}."
             )
         elif force_copy:
-            new_value = np.array(value.copy())
+            new_value = np.array(value)
         else:
             new_value = np.asarray(value)
 
-- 
2.43.0


From cc8772355e915c52dc8fa738eb3bf76cc7688040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 021/108] fix: store scalars when concatenating to a
 single-sample GraphState

---
 src/lightcurvelynx/graph_state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index d5b768f..3394328 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -339,6 +339,8 @@ class GraphState:
             for current in graph_states:
                 values_list.append(np.atleast_1d(current[full_name]))
             values = np.concatenate(values_list)
+            if total_samples == 1 and len(values) == 1:
+                values = values[0]  # A single sample stores its values without the sample dimension.
             result.set(node_name, param_name, values, force_copy=False, fixed=False)
         return result
 
-- 
2.43.0


From 6b26e9ba5880303f6d354cd0e55242816c248269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 022/108] fix: repeat None and zero-dimensional values for
 every sample of a GraphState

---
 src/lightcurvelynx/graph_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 3394328..541bc36 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -418,7 +418,7 @@ class GraphState:
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
             new_value = deepcopy(value) if force_copy else value
-        elif np.isscalar(value):
+        elif np.isscalar(value) or value is None or getattr(value, "ndim", None) == 0:
             # If the value is a scalar, expand it to the correct number of samples.
             new_value = np.full(self.num_samples, value)
         elif len(value) != self.num_samples:
-- 
2.43.0


From 0b6c34868dc3bfcc46e8d0eea6ca8f47480bdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 023/108] fix: pair each sample with its own arguments in
 vector-valued NumpyRandomFunc draws

---
 src/lightcurvelynx/math_nodes/np_random.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/np_random.py b/src/lightcurvelynx/math_nodes/np_random.py
index d81b04c..183c2c9 100644
--- a/src/lightcurvelynx/math_nodes/np_random.py
+++ b/src/lightcurvelynx/math_nodes/np_random.py
@@ -129,6 +129,12 @@ class NumpyRandomFunc(FunctionNode):
             # If we are generating a single sample use None so it isn't in an array.
             size_param = None
 
+        # Each sample uses its own arguments, so per-sample arguments vary along the first dimension.
+        if len(self.sample_size) > 0 and graph_state.num_samples > 1:
+            for key, value in args.items():
+                if np.ndim(value) == 1:
+                    args[key] = np.reshape(value, (-1,) + (1,) * len(self.sample_size))
+
         # Generate the values. Then save and return the results.
         results = func(**args, size=size_param)
         self._save_results(results, graph_state)
-- 
2.43.0


From e542186de9eda1bab1e672043f7ea6ff6a838ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 024/108] fix: accept integer weights and leave the caller's
 weights unchanged in GivenValueSampler

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 8b7abba..221f6bb 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -150,7 +150,7 @@ class GivenValueSampler(NumpyRandomFunc):
 
         # Compute the normalized weights for each value.
         if weights is not None:
-            self._weights = np.asarray(weights)
+            self._weights = np.array(weights, dtype=float)
             if len(self._weights) != self._num_values:
                 raise ValueError("Weights must match the number of values provided.")
             self._weights /= np.sum(self._weights)
-- 
2.43.0


From 0b762052e7d9da86286ade03d9649ae3c84bf6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 025/108] fix: integrate the tabulated density over x in
 DistributionSampler

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 9c27e6c..a77c1f7 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -6,6 +6,7 @@ an interpolation of the inverse CDF function.
 from os import urandom
 
 import numpy as np
+from scipy.integrate import cumulative_trapezoid
 from scipy.interpolate import interp1d
 
 from lightcurvelynx.base_models import FunctionNode
@@ -46,6 +47,8 @@ class DistributionSampler(FunctionNode):
         self._rng = np.random.default_rng(seed=seed)
 
         # Validate the inputs.
+        x = np.asarray(x)
+        y = np.asarray(y)
         if len(x) != len(y):
             raise ValueError(f"Length of x ({len(x)}) and y ({len(y)}) must be equal.")
         if np.any(y < 0):
@@ -53,7 +56,7 @@ class DistributionSampler(FunctionNode):
 
         # Create the CDF values (and normalize it to 1) and then create an interpolation
         # of the inverse CDF function.
-        cdf_samples = np.cumsum(y)
+        cdf_samples = cumulative_trapezoid(y, x, initial=0.0)
         cdf_samples /= cdf_samples[-1]
         self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)
 
-- 
2.43.0


From f04922b9ac32e310db7ff24ec411a68737e2d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 026/108] fix: use the given random generator in
 DistributionSampler and return plain numbers for single draws

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index a77c1f7..49aea62 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -94,10 +94,13 @@ class DistributionSampler(FunctionNode):
             functions can easily access the results.
         """
         num_samples = None if graph_state.num_samples == 1 else graph_state.num_samples
+        rng = rng_info if rng_info is not None else self._rng
 
         # Draw samples of the CDF [0, 1] and then use the inverse CDF spline to map those
         # back to the corresponding x values.
-        cdf_points = self._rng.random(num_samples)
+        cdf_points = rng.random(num_samples)
         x_samples = self._inv_cdf(cdf_points)
+        if num_samples is None:
+            x_samples = float(x_samples)
         self._save_results(x_samples, graph_state)
         return x_samples
-- 
2.43.0


From 19e37312d5f3c232c0629680f8c06286f50ab127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 027/108] fix: offset sampled pointings on the sphere in
 ObsTableRADECSampler and return plain numbers for single draws

---
 .../math_nodes/ra_dec_sampler.py              | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 8fd248e..cdd4875 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -132,18 +132,23 @@ class ObsTableRADECSampler(TableSampler):
         results = super().compute(graph_state, rng_info=rng_info, **kwargs)
 
         if self.radius > 0.0:
-            # Add an offset around the center. This is currently a placeholder that does
-            # NOT produce a uniform sampling. TODO: Make this uniform sampling.
             rng = rng_info if rng_info is not None else self._rng
-
-            # Choose a uniform circle around the center point. Not that this is not uniform over
-            # the final RA, dec because it does not account for compression in dec around the polls.
-            offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=graph_state.num_samples))
-            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=graph_state.num_samples)
-
-            # Add the offsets to RA and dec. Keep time unchanged.
-            results[0] += offset_amt * np.cos(offset_ang)  # RA
-            results[1] += offset_amt * np.sin(offset_ang)  # dec
+            num_samples = None if graph_state.num_samples == 1 else graph_state.num_samples
+
+            # Choose an offset from a uniform circle around the center point.
+            offset_amt = np.radians(self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=num_samples)))
+            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=num_samples)
+
+            # Move along the great circle in the chosen direction. Keep time unchanged.
+            ra = np.radians(results[0])
+            dec = np.radians(results[1])
+            sin_dec = np.sin(dec) * np.cos(offset_amt) + np.cos(dec) * np.sin(offset_amt) * np.cos(offset_ang)
+            delta_ra = np.arctan2(
+                np.sin(offset_ang) * np.sin(offset_amt) * np.cos(dec),
+                np.cos(offset_amt) - np.sin(dec) * sin_dec,
+            )
+            results[0] = np.degrees(ra + delta_ra)
+            results[1] = np.degrees(np.arcsin(np.clip(sin_dec, -1.0, 1.0)))
 
             # Resave the results (overwriting the previous results)
             self._save_results(results, graph_state)
-- 
2.43.0


From f245121722d208c5cb9f3af0d8359703b5fd3e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 028/108] fix: reject calls of anything but named functions in
 BasicMathNode with a ValueError

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 79405e8..2001d1c 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -201,8 +201,8 @@ class BasicMathNode(FunctionNode):
                 continue
             elif isinstance(node, ast.Call):
                 # Check that function calls are only using items on the allow list.
-                if node.func.id not in self._math_map:
-                    raise ValueError(f"Unsupported function {node.func.id}")
+                if not isinstance(node.func, ast.Name) or node.func.id not in self._math_map:
+                    raise ValueError(f"Unsupported function {ast.unparse(node.func)}")
             elif isinstance(node, ast.Name):
                 if node.id in kwargs:
                     # This is a user supplied variable.
-- 
2.43.0


From 379772ba750f45ec6c0955c9dbf80223cb23cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 029/108] fix: compute max and min of several values element by
 element in BasicMathNode

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 2001d1c..ae00882 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -203,6 +203,16 @@ class BasicMathNode(FunctionNode):
                 # Check that function calls are only using items on the allow list.
                 if not isinstance(node.func, ast.Name) or node.func.id not in self._math_map:
                     raise ValueError(f"Unsupported function {ast.unparse(node.func)}")
+                if node.func.id in ["max", "min"] and self.backend != "math" and len(node.args) > 1:
+                    # The second argument of the array libraries' max and min is the axis, so use
+                    # (nested calls of) the element-wise versions instead.
+                    lib_name = "np" if self.backend == "numpy" else "jnp"
+                    func = ast.Name(id=f"{lib_name}.{node.func.id}imum", ctx=ast.Load())
+                    args = list(node.args)
+                    while len(args) > 2:
+                        args = [ast.Call(func=func, args=args[:2], keywords=[])] + args[2:]
+                    node.func = func
+                    node.args = args
             elif isinstance(node, ast.Name):
                 if node.id in kwargs:
                     # This is a user supplied variable.
-- 
2.43.0


From 903a23f6a753844edcea921cabfae6dd329d4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 030/108] fix: evaluate BasicMathNode's math backend sample by
 sample

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index ae00882..8cf7433 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -127,6 +127,14 @@ class BasicMathNode(FunctionNode):
         def eval_func(**kwargs):
             params = self.prepare_params(**kwargs)
             try:
+                if self.backend == "math" and any(np.ndim(value) > 0 for value in params.values()):
+                    # The math library only handles a single sample at a time.
+                    arrays = np.broadcast_arrays(*params.values())
+                    results = [
+                        eval(self.expression, globals(), dict(zip(params, values, strict=True)))
+                        for values in zip(*[array.ravel().tolist() for array in arrays], strict=True)
+                    ]
+                    return np.reshape(results, arrays[0].shape)
                 return eval(self.expression, globals(), params)
             except Exception as problem:
                 # Provide more detailed logging, including the expression and parameters
-- 
2.43.0


From 4335614fe7d2903ea8107dada19b89597a9f20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 031/108] fix: accept only single numeric expressions in
 BasicMathNode

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 8cf7433..337f74e 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -202,9 +202,14 @@ class BasicMathNode(FunctionNode):
         """
         tree = ast.parse(self.expression)
 
+        if len(tree.body) != 1 or not isinstance(tree.body[0], ast.Expr):
+            raise ValueError(f"Expected a single expression. Received '{self.expression}'")
+
         # Walk the tree and confirm that it only contains the basic math.
         for node in ast.walk(tree):
-            if isinstance(node, self._supported_ast_nodes):
+            if isinstance(node, ast.Constant) and not isinstance(node.value, int | float):
+                raise ValueError(f"Invalid constant {node.value!r}. Only numbers are supported.")
+            elif isinstance(node, self._supported_ast_nodes):
                 # Nothing to do, this is a valid operation for the ast.
                 continue
             elif isinstance(node, ast.Call):
-- 
2.43.0


From 4601131086f3a135425fedc490c49404c51267bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 032/108] fix: spread sampled positions around pointings at the
 poles in every direction

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index cdd4875..d1cca6d 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -144,8 +144,8 @@ class ObsTableRADECSampler(TableSampler):
             dec = np.radians(results[1])
             sin_dec = np.sin(dec) * np.cos(offset_amt) + np.cos(dec) * np.sin(offset_amt) * np.cos(offset_ang)
             delta_ra = np.arctan2(
-                np.sin(offset_ang) * np.sin(offset_amt) * np.cos(dec),
-                np.cos(offset_amt) - np.sin(dec) * sin_dec,
+                np.sin(offset_ang) * np.sin(offset_amt),
+                np.cos(dec) * np.cos(offset_amt) - np.sin(dec) * np.sin(offset_amt) * np.cos(offset_ang),
             )
             results[0] = np.degrees(ra + delta_ra)
             results[1] = np.degrees(np.arcsin(np.clip(sin_dec, -1.0, 1.0)))
-- 
2.43.0


From a68d85f246b3676afe92b5aa9faf13111253c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 033/108] fix: use the given random generator when evaluating
 the model's band fluxes in simulate_lightcurves

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 37b39bb..7689af6 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -193,7 +193,7 @@ def simulate_lightcurves(
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-                passbands[survey_idx], obs_times, obs_filters, state
+                passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng
             )
             bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
             bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
-- 
2.43.0


From fbfb0ffc80cae57e292e50c6ad59aa4495656e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 034/108] fix: apply no time window to several samples of a
 model without t0

---
 src/lightcurvelynx/simulate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 7689af6..bcf67d1 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -31,9 +31,9 @@ def get_time_windows(t0, time_window_offset):
         this is always returned as an array (even if t0 is a scalar). None returned if there is
         no end time.
     """
-    # If the model did not have a t0 or we do not have a time_window_offset,
+    # If the model did not have a t0 (for any sample) or we do not have a time_window_offset,
     # we cannot apply a time window.
-    if t0 is None or time_window_offset is None:
+    if time_window_offset is None or all(value is None for value in np.atleast_1d(t0)):
         return None, None
     if len(time_window_offset) != 2:
         raise ValueError("time_window_offset must be a tuple of (before, after) in days.")
-- 
2.43.0


From b02743569b2129b72adfd7592803eb5a0ebbd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 035/108] fix: simulate unobserved objects with saved survey
 columns and with band flux models

---
 src/lightcurvelynx/simulate.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index bcf67d1..2693b17 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -176,20 +176,17 @@ def simulate_lightcurves(
 
         for survey_idx in range(num_surveys):
             # Find the indices and times where the current model is seen.
-            obs_index = np.asarray(all_obs_matches[survey_idx][idx])
-            if len(obs_index) == 0:
-                obs_times = []
-                obs_filters = []
-            else:
-                obs_times = all_times[survey_idx][obs_index]
-
-                # Filter to only the "interesting" indices / times for this object.
-                if apply_obs_mask:
-                    obs_mask = model.mask_by_time(obs_times, state)
-                    obs_index = obs_index[obs_mask]
-                    obs_times = obs_times[obs_mask]
-                # Extract the filters for this observation.
-                obs_filters = all_filters[survey_idx][obs_index]
+            obs_index = np.asarray(all_obs_matches[survey_idx][idx], dtype=int)
+            obs_times = all_times[survey_idx][obs_index]
+
+            # Filter to only the "interesting" indices / times for this object.
+            if apply_obs_mask and len(obs_index) > 0:
+                obs_mask = model.mask_by_time(obs_times, state)
+                obs_index = obs_index[obs_mask]
+                obs_times = obs_times[obs_mask]
+
+            # Extract the filters for this observation.
+            obs_filters = all_filters[survey_idx][obs_index]
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-- 
2.43.0


From 3bc11d5cca86b5f605ae3bd19598285e2b78880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 036/108] fix: accept integer phases and negative redshifts in
 noise free light curves

---
 src/lightcurvelynx/simulate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 2693b17..bad96a2 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -280,12 +280,14 @@ def compute_single_noise_free_lightcurve(
         raise ValueError("graph_state must have num_samples=1.")
 
     # Generate the rest-frame times at which to evaluate the light curve.
-    rest_phase = np.arange(rest_frame_phase_min, rest_frame_phase_max, step=rest_frame_phase_step)
+    rest_phase = np.arange(
+        rest_frame_phase_min, rest_frame_phase_max, step=rest_frame_phase_step, dtype=float
+    )
     times = rest_phase.copy()
 
     # Compute the observed-frame times (MJD) if needed.
     redshift = model.get_param(graph_state, "redshift")
-    if redshift is not None and redshift > 0:
+    if redshift is not None:
         times = times * (1 + redshift)
 
     t0 = model.get_param(graph_state, "t0")
-- 
2.43.0


From afb9a8feaf983b155c1006ff84f53a8d62bce10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 037/108] fix: save vector-valued parameter columns of single
 sample simulations

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index bad96a2..ce66bb0 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -146,7 +146,7 @@ def simulate_lightcurves(
                     f"Parameter column {col} not found in model parameters. "
                     f"Available parameters are: {sample_states.get_all_params_names()}."
                 )
-            results_dict[col.replace(".", "_")] = np.atleast_1d(sample_states[col]).tolist()
+            results_dict[col.replace(".", "_")] = [state[col] for state in sample_states]
 
     # Set up the nested array for the per-observation data, including ObsTable information.
     nested_index = []
-- 
2.43.0


From 42ad7137b20f931b0fe77cf2b5ae037469ab2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 038/108] fix: integrate band fluxes with the actual step of
 the wavelength grid

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7346a61..875b5a5 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1208,7 +1208,9 @@ class Passband:
             # integration and removing half the first and last values (to make it trapezoidal).
             first_val = np.take(integrand, 0, axis=w_axis)
             last_val = np.take(integrand, -1, axis=w_axis)
-            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * self.delta_wave
+            # Use the actual grid step, since the grid's range may not be a multiple of delta_wave.
+            grid_step = (self.waves[-1] - self.waves[0]) / (len(self.waves) - 1)
+            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * grid_step
         else:
             # Do the full integration.
             bandfluxes = scipy.integrate.trapezoid(integrand, x=self.waves, axis=w_axis)
-- 
2.43.0


From 82149b4104d061a56da5e7747b1ac968597d307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 039/108] fix: average repeated wavelengths of transmission
 tables

---
 src/lightcurvelynx/astro_utils/passbands.py | 28 +++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 875b5a5..28bb90f 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -704,10 +704,8 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
-            table_values = np.delete(table_values, dup_inds + 1, axis=0)
-        self._loaded_table = np.copy(table_values)
+            table_values = Passband._average_duplicate_wavelengths(table_values)
+        self._loaded_table = np.array(table_values, dtype=float)
 
         # Ensure the wavelengths are in Angstroms.
         if units == "nm":
@@ -997,12 +995,28 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
-            loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
+            loaded_table = Passband._average_duplicate_wavelengths(loaded_table)
 
         return loaded_table
 
+    @staticmethod
+    def _average_duplicate_wavelengths(table: np.ndarray) -> np.ndarray:
+        """Average the transmissions of repeated wavelengths.
+
+        Parameters
+        ----------
+        table : np.ndarray
+            A 2D array of (non-decreasing) wavelengths and transmissions.
+
+        Returns
+        -------
+        np.ndarray
+            A new 2D array of strictly increasing wavelengths and transmissions.
+        """
+        waves, inds = np.unique(table[:, 0], return_inverse=True)
+        transmissions = np.bincount(inds, weights=table[:, 1]) / np.bincount(inds)
+        return np.column_stack((waves, transmissions))
+
     def process_transmission_table(
         self,
         delta_wave: float | None = 5.0,
-- 
2.43.0


From ce719edfb9fa701b579fa8c636917389200b6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 040/108] fix: report transmission tables without any
 transmission with a ValueError

---
 src/lightcurvelynx/astro_utils/passbands.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 28bb90f..977be18 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1157,8 +1157,7 @@ class Passband:
             raise ValueError(
                 "Denominator is zero; cannot normalize transmission table. "
                 f"Consider checking the transmission table for band {self.full_name}. "
-                f"With wave grid set to: {self._wave_grid}, transmission table wavelengths are: "
-                f"{transmission_table[:, 0]}."
+                f"The transmission table wavelengths are: {transmission_table[:, 0]}."
             )
 
         # Calculate phi_b for each wavelength
-- 
2.43.0


From 89eb6c9fee58f5bd46aee4584dc0155fc10468f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 041/108] fix: map merged wavelengths of a PassbandGroup to the
 entry they were merged into

---
 src/lightcurvelynx/astro_utils/passbands.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 977be18..541656d 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -487,7 +487,8 @@ class PassbandGroup:
             # We only want the fluxes that are in the passband's wavelength range
             # So, find the indices in the group's wave grid that are in the passband's wave grid
             lower, upper = passband.waves[0], passband.waves[-1]
-            lower_index, upper_index = np.searchsorted(self.waves, [lower, upper])
+            # (or the entry they were merged into).
+            lower_index, upper_index = np.searchsorted(self.waves, [lower, upper], side="right") - 1
 
             # Check that this is the right grid after all (check will fail if passbands overlap and passbands
             # do not happen to be on the same phase of the grid; eg, even if the step is 10, if the first
@@ -495,7 +496,7 @@ class PassbandGroup:
             if np.array_equal(self.waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
-                indices = np.searchsorted(self.waves, passband.waves)
+                indices = np.searchsorted(self.waves, passband.waves, side="right") - 1
             self._in_band_wave_indices[name] = indices
 
     def wave_bounds(self):
-- 
2.43.0


From 1fbb889214a9a0c796c9869fe5b08565ba28065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 042/108] fix: refuse ambiguous filter names in
 PassbandGroup.fluxes_to_bandflux

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 541656d..17d2d69 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -567,7 +567,7 @@ class PassbandGroup:
         """
         if filter not in self.passbands:
             if filter in self._filter_to_name:
-                filter = self._filter_to_name[filter][0]
+                filter = self[filter].full_name
             else:
                 raise ValueError(f"Filter {filter} not found in passband group.")
         passband = self.passbands[filter]
-- 
2.43.0


From b6ace1cad5c847ad7f93dfb6da73ce946799209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 043/108] fix: evaluate SplineModel at unsorted and repeated
 times and wavelengths

---
 src/lightcurvelynx/models/spline_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/spline_model.py b/src/lightcurvelynx/models/spline_model.py
index 572526f..082f9a6 100644
--- a/src/lightcurvelynx/models/spline_model.py
+++ b/src/lightcurvelynx/models/spline_model.py
@@ -5,6 +5,7 @@ It is adapted from sncosmo's TimeSeriesSource model:
 https://github.com/sncosmo/sncosmo/blob/v2.10.1/sncosmo/models.py
 """
 
+import numpy as np
 from scipy.interpolate import RectBivariateSpline
 
 from lightcurvelynx.models.physical_model import SEDModel
@@ -187,5 +188,9 @@ class SplineModel(SEDModel):
         if t0 is None:
             t0 = 0.0
 
-        fluxes = params["amplitude"] * self._spline(times - t0, wavelengths, grid=True)
-        return fluxes
+        # The spline's grid evaluation needs strictly increasing inputs, so we evaluate it
+        # on the sorted unique values and map the results back to the requested points.
+        unique_times, time_inds = np.unique(times - t0, return_inverse=True)
+        unique_waves, wave_inds = np.unique(wavelengths, return_inverse=True)
+        grid_fluxes = self._spline(unique_times, unique_waves, grid=True)
+        return params["amplitude"] * grid_fluxes[np.ix_(time_inds, wave_inds)]
-- 
2.43.0


From a1b76b2dd02e2bf2b2e920d490ec88d153f8fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 044/108] fix: tell unlabeled objects of a
 RandomMultiObjectModel apart

---
 src/lightcurvelynx/models/multi_object_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index d208889..0ba4d07 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -496,8 +496,16 @@ class RandomMultiObjectModel(MultiObjectModel):
         super().__init__(objects, **kwargs)
 
         # Create a parameter to indicate which object was selected.
-        object_names = object_names or [src.node_string for src in objects]
-        self.object_map = {name: src for name, src in zip(object_names, objects, strict=False)}
+        if object_names is None:
+            # Unlabeled objects can share a name, so we add the index to tell them apart.
+            object_names = [src.node_string for src in objects]
+            if len(set(object_names)) != len(object_names):
+                object_names = [f"{name}_{idx}" for idx, name in enumerate(object_names)]
+        if len(object_names) != len(objects):
+            raise ValueError("Length of object_names must match length of objects.")
+        if len(set(object_names)) != len(object_names):
+            raise ValueError("The object names must be unique.")
+        self.object_map = {name: src for name, src in zip(object_names, objects, strict=True)}
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
 
-- 
2.43.0


From d5a4e7be1416e80c0e642374d1ecef95928dd3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 045/108] fix: look up the wavelength limits of a
 RandomMultiObjectModel by object name

---
 src/lightcurvelynx/models/multi_object_model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 0ba4d07..5fddcad 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -509,6 +509,13 @@ class RandomMultiObjectModel(MultiObjectModel):
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
 
+    def _selected_object(self, graph_state):
+        """Get the object selected in the given state, which can be given by name or index."""
+        selection = self.get_param(graph_state, "selected_object")
+        if selection in self.object_map:
+            return self.object_map[selection]
+        return self.objects[selection]
+
     def minwave(self, graph_state=None):
         """Get the minimum wavelength of the model.
 
@@ -524,8 +531,7 @@ class RandomMultiObjectModel(MultiObjectModel):
             The minimum wavelength of the model (in angstroms) or None
             if the model does not have a defined minimum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].minwave(graph_state=graph_state)
+        return self._selected_object(graph_state).minwave(graph_state=graph_state)
 
     def maxwave(self, graph_state=None):
         """Get the maximum wavelength of the model.
@@ -542,8 +548,7 @@ class RandomMultiObjectModel(MultiObjectModel):
             The maximum wavelength of the model (in angstroms) or None
             if the model does not have a defined maximum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].maxwave(graph_state=graph_state)
+        return self._selected_object(graph_state).maxwave(graph_state=graph_state)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From 2fe1ccc93559d885ab28c7e06e46a5c43f2920d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 046/108] fix: toggle the redshift of every member in
 MultiObjectModel.set_apply_redshift

---
 src/lightcurvelynx/models/multi_object_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 5fddcad..66fad3c 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -92,9 +92,10 @@ class MultiObjectModel(SEDModel):
         apply_redshift : bool
             The new value for apply_redshift.
         """
-        for idx, object in enumerate(self.objects):
-            if self._is_bandflux[idx]:
-                object.set_apply_redshift(apply_redshift)
+        if self._any_bandflux:
+            raise NotImplementedError("BandfluxModel does not support apply_redshift.")
+        for object in self.objects:
+            object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
-- 
2.43.0


From 028ec669b778b1fb938932e1d1ffdd725b8fb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 047/108] fix: accept an array of two SEDs in StaticSEDModel

---
 src/lightcurvelynx/models/static_sed_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index d44a01d..8ea2021 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -45,7 +45,7 @@ class StaticSEDModel(SEDModel):
         **kwargs,
     ):
         # If only a single SED was passed, then put it in a list by itself.
-        if isinstance(sed_values, np.ndarray) and len(sed_values) == 2:
+        if isinstance(sed_values, np.ndarray) and sed_values.ndim == 2:
             self.sed_values = [sed_values]
         else:
             self.sed_values = sed_values
-- 
2.43.0


From 1f62b3795ff308ad4e69f1386a3885055392d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 048/108] fix: pass the keyword arguments on to compute_sed
 when extrapolating

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 2754ca7..1a1affb 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -371,7 +371,7 @@ class SEDModel(BasePhysicalModel):
 
         # Pad the wavelengths with the min and max values and compute the flux at those points.
         query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
-        computed_flux = self.compute_sed(times, query_waves, graph_state)
+        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From b65900b1b78fe5a370687b6daee5737953275e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 049/108] fix: allow keyword arguments for compute_sed without
 a graph state in evaluate_sed

---
 src/lightcurvelynx/models/physical_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 1a1affb..ff89338 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -495,9 +495,7 @@ class SEDModel(BasePhysicalModel):
 
         # Check if we need to sample the graph.
         if graph_state is None:
-            graph_state = self.sample_parameters(
-                given_args=given_args, num_samples=1, rng_info=rng_info, **kwargs
-            )
+            graph_state = self.sample_parameters(given_args=given_args, num_samples=1, rng_info=rng_info)
 
         # If we only have a single sample, do not bother to iterate through the states.
         if graph_state.num_samples == 1:
-- 
2.43.0


From ff3319ed7da5cfd45f84bfce2076a09021231f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 050/108] fix: accept keyword arguments in compute_sed of
 static and template models

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 8 ++++++--
 src/lightcurvelynx/models/static_sed_model.py          | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e98ff0e..8ba8918 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -647,7 +647,7 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -658,6 +658,8 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments. Not used for this model.
 
         Returns
         -------
@@ -864,7 +866,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
 
         return cls(lightcurves, passbands, **kwargs)
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -875,6 +877,8 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments. Not used for this model.
 
         Returns
         -------
diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index 8ea2021..bbc02dc 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -177,7 +177,7 @@ class StaticSEDModel(SEDModel):
         idx = self.get_param(graph_state, "selected_idx")
         return self.sed_values[idx][0, -1]
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -188,6 +188,8 @@ class StaticSEDModel(SEDModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments. Not used for this model.
 
         Returns
         -------
-- 
2.43.0


From e1ed8ab23b04af68cb862fff9ca492db84d4036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 051/108] fix: use the given random number generator for the
 random walk of AGN

---
 src/lightcurvelynx/models/agn.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 8ad18ba..9039461 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -478,7 +478,28 @@ class AGN(SEDModel):
         G = constants.G.cgs.value
         return 2 ** (3 / 4) * (3 / 7) ** (7 / 4) * (G * M * Mdot / (np.pi * sigma_sb * r_in**3)) ** (1 / 4)
 
-    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
+    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
+        """Evaluate the model and apply the effects for a single, given graph state.
+        Extends SEDModel._evaluate_single() to provide the random number generator to compute_sed().
+
+        Parameters
+        ----------
+        times : numpy.ndarray
+            A length T array of observer frame timestamps in MJD.
+        wavelengths : numpy.ndarray
+            A length N array of wavelengths (in angstroms).
+        state : GraphState
+            An object mapping graph parameters to their values with num_samples=1.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            All the other keyword arguments.
+        """
+        kwargs.setdefault("rng", rng_info)
+        return super()._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
+
+    def compute_sed(self, times, wavelengths, graph_state, rng=None, **kwargs):
         """Draw effect-free observations for this object.
 
         Parameters
@@ -489,6 +510,9 @@ class AGN(SEDModel):
             A length N array of wavelengths (in angstroms).
         graph_state : `GraphState`
             An object mapping graph parameters to their values.
+        rng : `numpy.random._generator.Generator`, optional
+            A given numpy random number generator to use for the damped random walk.
+            If not provided, the function uses the object's random number generator.
         **kwargs : `dict`, optional
             Any additional keyword arguments.
 
@@ -523,7 +547,7 @@ class AGN(SEDModel):
             tau_v,
             sf_inf,
             params["t0"],
-            rng=self._rng,
+            rng=self._rng if rng is None else rng,
         )
 
         flux_density = 10 ** (-0.4 * delta_m) * fnu_average
-- 
2.43.0


From c9108dc7d72c083f9ee923c45c8cce4ce120b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 052/108] fix: evaluate AGN at unordered and repeated times

---
 src/lightcurvelynx/models/agn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 9039461..723ac8f 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -542,13 +542,15 @@ class AGN(SEDModel):
         )
 
         # Run the damped random walk.
+        # The walk moves forward in time, so step through the distinct times in order.
+        walk_times, walk_idx = np.unique(times, return_inverse=True)
         delta_m = sample_damped_random_walk(
-            times,
+            walk_times,
             tau_v,
             sf_inf,
             params["t0"],
             rng=self._rng if rng is None else rng,
         )
 
-        flux_density = 10 ** (-0.4 * delta_m) * fnu_average
+        flux_density = 10 ** (-0.4 * delta_m[walk_idx]) * fnu_average
         return flux_density
-- 
2.43.0


From c09435b4329965143b8c72d5b74fa9771dec758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 053/108] fix: use the AGN's own seed for its inclination

---
 src/lightcurvelynx/models/agn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 723ac8f..2bf510f 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -119,7 +119,11 @@ class AGN(SEDModel):
         # Add the parameters for the AGN. t0 already set in BasePhysicalModel.
         self.add_parameter("blackhole_mass", blackhole_mass, **kwargs)
         self.add_parameter("edd_ratio", edd_ratio, **kwargs)
-        self.add_parameter("inclination_rad", NumpyRandomFunc("uniform", low=0, high=np.pi / 2.0), **kwargs)
+        self.add_parameter(
+            "inclination_rad",
+            NumpyRandomFunc("uniform", low=0, high=np.pi / 2.0, seed=seed),
+            **kwargs,
+        )
 
         # Add the derived parameters using FunctionNodes built from the object's static methods.
         # Each of these will be computed for each sample value of the input parameters.
-- 
2.43.0


From f09a3f23f0aa86bd708f29b0654a2132261af147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 054/108] fix: draw the position angle of
 SNCoordGivenPhysicalSep from the given generator

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 56 ++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 3f22571..a072102 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -1,3 +1,5 @@
+from os import urandom
+
 import astropy.units as u
 import numpy as np
 import scipy.integrate as integrate
@@ -343,11 +345,15 @@ class SNCoordGivenPhysicalSep(FunctionNode):
         The Hubble constant.
     Omega_m : constant
         The matter density Omega_m.
+    seed : int, optional
+        The seed to use for the random number generator.
     **kwargs : dict, optional
         Any additional keyword arguments.
     """
 
-    def __init__(self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, **kwargs):
+    def __init__(
+        self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs
+    ):
         # Create the cosmology once for this node.
         if not isinstance(H0, float) or not isinstance(Omega_m, float):
             raise ValueError("H0 and Omega_m must be constants.")
@@ -364,6 +370,46 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             **kwargs,
         )
 
+        # Get a default rng for this node (using the seed if one is given).
+        if seed is None:
+            seed = int.from_bytes(urandom(4), "big")
+        self.set_seed(seed)
+
+    def set_seed(self, new_seed):
+        """Set the random seed to a given value.
+
+        Parameters
+        ----------
+        new_seed : int
+            The given seed
+        """
+        self._rng = np.random.default_rng(seed=new_seed)
+
+    def compute(self, graph_state, rng_info=None, **kwargs):
+        """Compute the SN coordinates.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            Additional function arguments.
+
+        Returns
+        -------
+        results : any
+            The result of the computation. This return value is provided so that testing
+            functions can easily access the results.
+        """
+        args = self._build_inputs(graph_state, **kwargs)
+        results = self._sn_coord(**args, rng=self._rng if rng_info is None else rng_info)
+        self._save_results(results, graph_state)
+        return results
+
     def _host_sn_angular_separation(self, physical_sep_kpc, redshift):
         """
         Function for calculating host-sn angular separation.
@@ -386,7 +432,7 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         return angular_sep_rad
 
-    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift):
+    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift, rng=None):
         """
         Function to generate SN coordinates given the host coordinates and angular separation.
 
@@ -400,6 +446,9 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             The physical host-sn separation(s) in kpc.
         redshift : float or numpy.ndarray
             The redshift to convert physical separation to angular separation.
+        rng : numpy.random._generator.Generator, optional
+            The random number generator to use. If not provided, the function uses
+            the node's random number generator.
 
         Returns
         -------
@@ -411,7 +460,8 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         self.angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
         center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
-        rand_pa = 2 * np.pi * np.random.random(center.size) * u.rad  # random position angle
+        rng = self._rng if rng is None else rng
+        rand_pa = 2 * np.pi * rng.random(center.size) * u.rad  # random position angle
 
         sn_coord = center.directional_offset_by(rand_pa, self.angular_sep_rad)
         ra = sn_coord.ra.deg
-- 
2.43.0


From 1fc3b158de8cd2cc7a3f3e016e0f379944072080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 055/108] fix: sample a conditional PZFlowNode with a single
 sample

---
 src/lightcurvelynx/astro_utils/pzflow_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/pzflow_node.py b/src/lightcurvelynx/astro_utils/pzflow_node.py
index 58e2ced..ce02816 100644
--- a/src/lightcurvelynx/astro_utils/pzflow_node.py
+++ b/src/lightcurvelynx/astro_utils/pzflow_node.py
@@ -101,7 +101,7 @@ class PZFlowNode(FunctionNode, CiteClass):
             all_params = self.get_local_params(graph_state)
             input_params = {}
             for col in self.conditional_cols:
-                input_params[col] = all_params[col]
+                input_params[col] = np.atleast_1d(all_params[col])
             input_df = pd.DataFrame(input_params)
 
             samples = self.flow.sample(1, conditions=input_df, seed=seed)
-- 
2.43.0


From 378debe5372a2fa6a2341e2d28ae8ef322fdf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 056/108] fix: mark observations without a valid SNR as
 non-detections in results_augment_lightcurves

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 8092744..d31a056 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -144,7 +144,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     # Compute SNR and detection flag.
     snr = lightcurve_compute_snr(flux, fluxerr)
     results["lightcurve.snr"] = snr
-    results["lightcurve.detection"] = [(x is not None and x >= min_snr) for x in snr]
+    results["lightcurve.detection"] = ma.filled(snr >= min_snr, False)
 
     # Compute magnitude and magnitude error.
     mag, magerr = lightcurve_compute_mag(flux, fluxerr)
-- 
2.43.0


From 9ae6d941b92cdf5b5349aa50b8733d3b4284f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 057/108] fix: match reference times to light curves by object
 instead of row label

---
 src/lightcurvelynx/utils/post_process_results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index d31a056..b6aff6c 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -156,8 +156,8 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-        # Get the index for the t0 entry for each lightcurve MJD and use that
+        # Get the row position of the object for each lightcurve MJD and use that
         # to subtract out the reference t0.
         t0 = np.asanyarray(results["t0"])
-        t0_idx = np.array(results["lightcurve"]["mjd"].index)
+        t0_idx = results["lightcurve"].array.get_list_index()
         results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
-- 
2.43.0


From a665b827bb6d7b8770c25b84677f7ac6265d1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 058/108] fix: compute relative times for a reference time of
 zero

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index b6aff6c..b6cf611 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -152,7 +152,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and np.all(results["t0"]) and results["t0"].notna().all():
+    if "t0" in results.columns and results["t0"].notna().all():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-- 
2.43.0


From d47b8be62dc23b48f42ec06e8ae00193400900c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 059/108] fix: drop light curves without observations in
 results_drop_empty

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index b6cf611..6fe7b05 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -21,7 +21,7 @@ def results_drop_empty(results):
     nested_pandas.NestedFrame
         The DataFrame with empty lightcurves removed.
     """
-    return results.dropna(subset=["lightcurve"])
+    return results[np.asarray(results["lightcurve"].array.list_lengths) > 0]
 
 
 def lightcurve_compute_snr(flux, fluxerr):
-- 
2.43.0


From 7ef33dda12605a70e949dee1fc7d1724b6df1e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 060/108] fix: do not modify the given baseline of a light
 curve in magnitudes

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 8ba8918..9517b2d 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -145,7 +145,7 @@ class LightcurveData:
             for filter in self.lightcurves:
                 if filter not in baseline:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
-            self.baseline = baseline
+            self.baseline = baseline.copy()
 
         # Convert the baseline from magnitudes to fluxes if needed.
         if magnitudes_in:
-- 
2.43.0


From 0c29f4b37e1903772fa8c8433ca91f95ee49f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 061/108] fix: do not truncate light curves given as integer
 arrays

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 9517b2d..c21de9a 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -94,7 +94,7 @@ class LightcurveData:
 
         if isinstance(lightcurves, dict):
             # Make a copy of the light curves to avoid modifying the original data.
-            self.lightcurves = {filter: lc.copy() for filter, lc in lightcurves.items()}
+            self.lightcurves = {filter: lc.astype(float) for filter, lc in lightcurves.items()}
         elif isinstance(lightcurves, np.ndarray):
             if lightcurves.shape[1] != 3:
                 raise ValueError("Light curves array must have 3 columns: time, flux, and filter.")
-- 
2.43.0


From 88822fc7972e67643309e961f1c04be6789d555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 062/108] fix: accept a LightcurveData instance in
 LightcurveTemplateModel as documented

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index c21de9a..4a258f4 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -644,7 +644,10 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         **kwargs,
     ):
         # Store the light curve data, parsing out different formats if needed.
-        self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
+        if isinstance(lightcurves, LightcurveData):
+            self.lightcurves = lightcurves
+        else:
+            self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
     def compute_sed(self, times, wavelengths, graph_state, **kwargs):
-- 
2.43.0


From 00552c78a104b70ae2f082046fc14cd7cd6db60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 063/108] fix: interpret the radius of GaussianGalaxy in
 degrees

---
 src/lightcurvelynx/models/galaxy_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/galaxy_models.py b/src/lightcurvelynx/models/galaxy_models.py
index b4240f9..823b9bd 100644
--- a/src/lightcurvelynx/models/galaxy_models.py
+++ b/src/lightcurvelynx/models/galaxy_models.py
@@ -68,7 +68,7 @@ class GaussianGalaxy(SEDModel):
             )
 
         # Scale the brightness as a Guassian function centered on the object's RA and Dec.
-        std = params["galaxy_radius_std"]
+        std = params["galaxy_radius_std"] * np.pi / 180.0
         scale = np.exp(-(dist * dist) / (2.0 * std * std))
 
         return np.full((len(times), len(wavelengths)), params["brightness"] * scale)
-- 
2.43.0


From e354b9b93b94e2e9d04aeb63a52ccf1a94472341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 064/108] fix: report passbands narrower than the wavelength
 step with a ValueError

---
 src/lightcurvelynx/astro_utils/passbands.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 17d2d69..4b41059 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1097,6 +1097,9 @@ class Passband:
             return table
         if trim_quantile < 0 or trim_quantile >= 0.5:
             raise ValueError(f"Trim quantile must be between 0 and 0.5; got {trim_quantile}.")
+        if len(table) < 2:
+            # There is no area to trim (the normalization rejects such tables).
+            return table
 
         # Separate wavelengths and transmissions
         wavelengths = table[:, 0]
-- 
2.43.0


From 273b105109aae4fdf8a4dbd6d26503b59d1c58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 065/108] fix: evaluate sncosmo sources at unsorted times and
 wavelengths

---
 src/lightcurvelynx/models/sncomso_models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index 37a664d..35f9d52 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -267,8 +267,11 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         if np.any(wavelengths < self.source.minwave()) or np.any(wavelengths > self.source.maxwave()):
             return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
 
-        # Query the model and convert the output to nJy.
-        model_flam = self.source.flux(times - params["t0"], wavelengths)
+        # Query the model and convert the output to nJy. Many sncosmo sources require the query points
+        # to be sorted, so we query the unique (sorted) points and expand to the requested order.
+        phases, phase_idx = np.unique(np.asarray(times) - params["t0"], return_inverse=True)
+        waves, wave_idx = np.unique(wavelengths, return_inverse=True)
+        model_flam = self.source.flux(phases, waves)[np.ix_(phase_idx, wave_idx)]
         model_fnu = flam_to_fnu(
             model_flam,
             wavelengths,
-- 
2.43.0


From 0c260b4c7ae76d1761b5783beeaafd6878fbfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 066/108] fix: extrapolate redback sources instead of recursing
 without end

---
 src/lightcurvelynx/models/redback_models.py | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lightcurvelynx/models/redback_models.py b/src/lightcurvelynx/models/redback_models.py
index 24472f6..d52367f 100644
--- a/src/lightcurvelynx/models/redback_models.py
+++ b/src/lightcurvelynx/models/redback_models.py
@@ -201,20 +201,33 @@ class RedbackWrapperModel(SEDModel, CiteClass):
             **fn_args,
         )
 
-        # The sncosmo-type source gives an error if the wavelengths are out of bounds, so we
-        # need to use extrapolation if the wavelengths are out of bounds. The function
-        # compute_sed_with_extrapolation() will trim the input wavelengths to be within the model's bounds
-        # and call this function again. So the second call passes this bounds check and does not recurse.
-        if np.any(wavelengths < rb_result.minwave()) or np.any(wavelengths > rb_result.maxwave()):
-            return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
+        # The sncosmo-type source gives an error if the wavelengths are out of bounds, so we query
+        # such wavelengths at the nearest edge. The bounds are only known once the source is created.
+        # The query points also need to be sorted, so we query the unique (sorted) points and expand
+        # the result to the requested order.
+        wavelengths = np.asarray(wavelengths)
+        min_wave = rb_result.minwave()
+        max_wave = rb_result.maxwave()
+        phases, phase_idx = np.unique(shifted_times, return_inverse=True)
+        waves, wave_idx = np.unique(np.clip(wavelengths, min_wave, max_wave), return_inverse=True)
 
         # Query the model and convert the output to nJy.
-        model_flam = rb_result.get_flux_density(shifted_times, wavelengths)
+        model_flam = rb_result.get_flux_density(phases, waves)
         model_fnu = flam_to_fnu(
             model_flam,
-            wavelengths,
+            waves,
             wave_unit=uu.AA,
             flam_unit=self._FLAM_UNIT,
             fnu_unit=uu.nJy,
-        )
+        )[np.ix_(phase_idx, wave_idx)]
+
+        # Replace the edge values outside the bounds with zeros or the extrapolated flux.
+        for edge, mask in ((min_wave, wavelengths < min_wave), (max_wave, wavelengths > max_wave)):
+            if not np.any(mask):
+                continue
+            if self.wave_extrapolation is None:
+                model_fnu[:, mask] = 0.0
+            else:
+                edge_flux = model_fnu[:, np.flatnonzero(mask)[0]]
+                model_fnu[:, mask] = self.wave_extrapolation(edge, edge_flux, wavelengths[mask])
         return model_fnu
-- 
2.43.0


From edc6f85584fc841279328fcabe0b176d8f0d4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 067/108] fix: detect BandfluxModels inside nested multi-object
 models

---
 src/lightcurvelynx/models/multi_object_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 66fad3c..02d2e45 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -57,6 +57,9 @@ class MultiObjectModel(SEDModel):
             if isinstance(object, BandfluxModel):
                 self._is_bandflux[idx] = True
                 self._any_bandflux = True
+            elif isinstance(object, MultiObjectModel):
+                # A nested multi-object model can contain BandfluxModels.
+                self._any_bandflux = self._any_bandflux or object._any_bandflux
             elif not isinstance(object, BasePhysicalModel):
                 raise ValueError("All objects must be BasePhysicalModel objects.")
 
-- 
2.43.0


From 75913b2cf0bad223177156e59477c12576a61752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 068/108] fix: periodic light curves do not drop to zero where
 the period wraps

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 4a258f4..f6837af 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -325,9 +325,10 @@ class LightcurveData:
             raise ValueError(f"Filter {filter} not found in light curves.")
         lightcurve = self.lightcurves[filter]
 
-        # If the light curve is periodic, wrap the times around the period.
+        # If the light curve is periodic, wrap the times around the period. The light curve covers the
+        # full period (up to rounding), so there are no times that need the baseline.
         if self.period is not None:
-            times = times % self.period
+            return np.interp(times % self.period, lightcurve[:, 0], lightcurve[:, 1])
 
         # Start with an array of all baseline values.
         values = np.full(len(times), self.baseline.get(filter, 0.0))
-- 
2.43.0


From 9485291b404ed95cb48964f40aabcbd3264fa87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 069/108] fix: default baseline of light curves given in
 magnitudes is zero flux

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index f6837af..23455ac 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -147,10 +147,10 @@ class LightcurveData:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
             self.baseline = baseline.copy()
 
-        # Convert the baseline from magnitudes to fluxes if needed.
-        if magnitudes_in:
-            for filter in self.baseline:
-                self.baseline[filter] = mag2flux(self.baseline[filter])
+            # Convert the given baseline from magnitudes to fluxes if needed.
+            if magnitudes_in:
+                for filter in self.baseline:
+                    self.baseline[filter] = mag2flux(self.baseline[filter])
 
     def __len__(self):
         """Get the number of light curves."""
-- 
2.43.0


From e8dbb441cfbab2deaf6dca6bf6d9832d34c60ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 070/108] fix: read back numeric arrays written to .dat files

---
 src/lightcurvelynx/utils/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 17891b5..f8cefd8 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -33,7 +33,7 @@ def read_numpy_data(file_path):
         data = np.load(file_path)["arr_0"]
     elif file_path.suffix in [".csv", ".ecsv"]:
         data = np.loadtxt(file_path, delimiter=",", comments="#")
-    elif file_path.suffix in [".txt"]:
+    elif file_path.suffix in [".txt", ".dat"]:
         data = np.loadtxt(file_path, comments="#")
     else:
         raise ValueError(f"Unsupported file format: {file_path.suffix}.")
-- 
2.43.0


From 2dcb4cbf6e1652035087e06f3160cdc36008b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 071/108] fix: eclipse is not lost when one stellar disc just
 covers the other

---
 src/lightcurvelynx/models/periodic_variable_star.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/periodic_variable_star.py b/src/lightcurvelynx/models/periodic_variable_star.py
index 92742b7..0fcc7b7 100644
--- a/src/lightcurvelynx/models/periodic_variable_star.py
+++ b/src/lightcurvelynx/models/periodic_variable_star.py
@@ -254,8 +254,9 @@ class EclipsingBinaryStar(PeriodicVariableStar):
         with np.errstate(divide="ignore", invalid="ignore"):
             # Angles between lines connecting the centers of the circles and the points of intersection.
             # These are halves of the intersection-center-intersection angles.
-            alpha1 = np.arccos((d_sq + r1_sq - r2_sq) / (2 * r1 * d))
-            alpha2 = np.arccos((d_sq + r2_sq - r1_sq) / (2 * r2 * d))
+            # The cosines can leave [-1, 1] by rounding when one circle just touches the other.
+            alpha1 = np.arccos(np.clip((d_sq + r1_sq - r2_sq) / (2 * r1 * d), -1.0, 1.0))
+            alpha2 = np.arccos(np.clip((d_sq + r2_sq - r1_sq) / (2 * r2 * d), -1.0, 1.0))
 
             # Area of circular segments, it is 1/2 r^2 angle, angle = 2 alpha, so area = r^2 alpha
             area1 = r1_sq * alpha1
-- 
2.43.0


From bcc046170367baa15660fa2900588d86ec55fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 072/108] fix: read FITS grid files

---
 src/lightcurvelynx/utils/io_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index f8cefd8..95e4126 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -103,7 +103,10 @@ def read_grid_data(input_file, format="ascii", validate=False):
     if not Path(input_file).is_file():
         raise FileNotFoundError(f"File {input_file} not found.")
 
-    data = Table.read(input_file, format=format, comment=r"\s*#")
+    # Only the text readers know about comments.
+    is_text = format.startswith("ascii") or format == "csv"
+    kwargs = {"comment": r"\s*#"} if is_text else {}
+    data = Table.read(input_file, format=format, **kwargs)
     if len(data.colnames) != 3:
         raise ValueError(
             f"Incorrect format for grid data in {input_file} with format {format}. "
-- 
2.43.0


From 2013f50decaa47444afdbe94a5c4adda94999898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 073/108] fix: grid files with unordered rows keep each value
 at its grid point

---
 src/lightcurvelynx/utils/io_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 95e4126..f3c9522 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -145,8 +145,13 @@ def read_grid_data(input_file, format="ascii", validate=False):
                     )
                 counter += 1
 
-    # Build the values matrix.
-    values = data[v_col].data.reshape((len(x0), len(x1)))
+    # Build the values matrix, placing each value at its own grid point.
+    x0_idx = np.searchsorted(x0, data[x0_col].data)
+    x1_idx = np.searchsorted(x1, data[x1_col].data)
+    flat_idx = x0_idx * len(x1) + x1_idx
+    if len(np.unique(flat_idx)) != len(flat_idx):
+        raise ValueError(f"Repeated grid points (and incomplete data) for {input_file}.")
+    values = data[v_col].data[np.argsort(flat_idx)].reshape((len(x0), len(x1)))
 
     return x0, x1, values
 
-- 
2.43.0


From 96a1565a7080fd70ad251b2cbcbf5a89565cfb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 074/108] fix: refuse unfinished LCLIB events and keep event
 metadata apart

---
 src/lightcurvelynx/utils/io_utils.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index f3c9522..cb032e4 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -171,7 +171,9 @@ def _read_lclib_data_from_open_file(input_file):
     """
     colnames = []
     curves = []
-    meta = {}
+    header_meta = {}  # Metadata given outside the events.
+    meta = header_meta
+    in_event = False
     current_model = {}
     parnames = []
     in_doc_block = False
@@ -204,23 +206,35 @@ def _read_lclib_data_from_open_file(input_file):
             for c in value:
                 colnames.append(c)
         elif key == "END_EVENT":
+            if not in_event:
+                raise ValueError(f"Error on line={l_num}: END_EVENT without START_EVENT.")
             curr_id = meta.get("id", "")
             if curr_id != value:
                 raise ValueError(f"Event ID mismatch (line {l_num}): found {value}, expected {curr_id}.")
 
             # Save the table we have so far.
             curves.append(Table(current_model, meta=meta))
+            in_event = False
+            meta = header_meta
         elif key == "START_EVENT":
             if len(colnames) == 0:
                 raise ValueError(f"Error on line= {l_num}: No filters defined.")
+            if in_event:
+                raise ValueError(f"Error on line={l_num}: Event {meta.get('id', '')} is not finished.")
+            in_event = True
 
             # Start a new light curve, but resetting the lists of data from the columns.
             current_model["type"] = []  # Initialize the type list.
             for col in colnames:
                 current_model[col] = []
+
+            # The event's own metadata is added to (a copy of) the header's.
+            meta = header_meta.copy()
             meta["id"] = value
         elif key == "S" or key == "T":
             # Save an observation or template to the current light curve.
+            if not in_event:
+                raise ValueError(f"Error on line={l_num}: Observation outside of an event.")
             current_model["type"].append(key)  # Get the type from the key.
 
             # Get the time and magnitudes from the columns.
@@ -244,6 +258,9 @@ def _read_lclib_data_from_open_file(input_file):
             # Save everything else to the meta dictionary.
             meta[key] = value
 
+    if in_event:
+        raise ValueError(f"Unexpected end of file: event {meta.get('id', '')} is not finished.")
+
     return curves
 
 
-- 
2.43.0


From 8bd198fe854bee4a7e0530d53e74c4c4e6fef4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 075/108] fix: LCLIB parameter names and values do not keep
 blanks around commas

---
 src/lightcurvelynx/utils/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index cb032e4..a31eb0f 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -244,10 +244,10 @@ def _read_lclib_data_from_open_file(input_file):
             for col_idx, col in enumerate(colnames):
                 current_model[col].append(float(col_vals[col_idx]))
         elif key == "MODEL_PARNAMES" or key == "MODEL_PARAMETERS":
-            parnames = value.split(",")
+            parnames = [name.strip() for name in value.split(",")]
         elif key == "PARVAL":
             if "," in value:
-                all_vals = value.split(",")
+                all_vals = [val.strip() for val in value.split(",")]
             else:
                 all_vals = value.split()
 
-- 
2.43.0


From 97d8202cd8ef13efd6cbcff13221401f3ca1611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 076/108] fix: refuse grid files with missing or non-numeric
 entries

---
 src/lightcurvelynx/utils/io_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index a31eb0f..0ad27a9 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -112,6 +112,9 @@ def read_grid_data(input_file, format="ascii", validate=False):
             f"Incorrect format for grid data in {input_file} with format {format}. "
             f"Expected 3 columns but found {len(data.colnames)}."
         )
+    for col in data.colnames:
+        if not np.issubdtype(data[col].dtype, np.number) or np.ma.is_masked(data[col]):
+            raise ValueError(f"Column {col} of {input_file} has missing or non-numeric entries.")
     x0_col = data.colnames[0]
     x1_col = data.colnames[1]
     v_col = data.colnames[2]
-- 
2.43.0


From e604603f5a8d1207b1e74c64a17790b7386eff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 077/108] fix: load passbands from a directory given by a
 relative path

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 4b41059..0574c26 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -214,7 +214,7 @@ class PassbandGroup:
                     params = {
                         "survey": dir_path.name,
                         "filter_name": filter_name,
-                        "table_path": dir_path / entry,
+                        "table_path": entry,
                         "delta_wave": delta_wave,
                         "trim_quantile": trim_quantile,
                         "units": units,
-- 
2.43.0


From a053ae3cbcd4177a401d672b0a6e19a4d8e155a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 078/108] fix: relative times of result tables with repeated
 row labels stay with their observation

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 6fe7b05..9157728 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -160,4 +160,4 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         # to subtract out the reference t0.
         t0 = np.asanyarray(results["t0"])
         t0_idx = results["lightcurve"].array.get_list_index()
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
+        results["lightcurve.time_rel"] = np.asarray(results["lightcurve.mjd"]) - t0[t0_idx]
-- 
2.43.0


From 305bcd185d2dd3752fee11af28c3a918bbec850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 079/108] fix: end-to-end supernova run draws parameters and
 noise from the given generator

---
 src/lightcurvelynx/example_runs/simulate_snia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/example_runs/simulate_snia.py b/src/lightcurvelynx/example_runs/simulate_snia.py
index 5122ec4..d8636eb 100644
--- a/src/lightcurvelynx/example_runs/simulate_snia.py
+++ b/src/lightcurvelynx/example_runs/simulate_snia.py
@@ -208,7 +208,7 @@ def draw_single_random_sn(
 
     bandfluxes_error = opsim.bandflux_error_point_source(bandfluxes_perfect, obs_index)
     res["bandfluxes_error"] = bandfluxes_error
-    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=None)
+    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng_info)
 
     res["state"] = state
 
@@ -274,7 +274,7 @@ def run_snia_end2end(
     passbands = load_and_register_passband(passbands_dir, to_use=["g", "r"])
 
     logger.info(f"Sampling {nsample} states.")
-    sample_states = source.sample_parameters(num_samples=nsample)
+    sample_states = source.sample_parameters(num_samples=nsample, rng_info=rng_info)
 
     res_list = []
     for i in range(0, nsample):
-- 
2.43.0


From 18029724df5a45ab35777ece0886ba14b1525957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 080/108] fix: cosmological distance works for models with
 further keyword parameters

---
 src/lightcurvelynx/models/physical_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index ff89338..aa20857 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -83,7 +83,9 @@ class BasePhysicalModel(ParameterizedNode, ABC):
         if distance is not None:
             self.add_parameter("distance", distance, allow_gradient=False)
         elif redshift is not None and kwargs.get("cosmology") is not None:
-            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, **kwargs)
+            self._redshift_func = RedshiftDistFunc(
+                redshift=self.redshift, cosmology=kwargs["cosmology"]
+            )
             self.add_parameter("distance", self._redshift_func, allow_gradient=False)
         else:
             self.add_parameter("distance", None, allow_gradient=False)
-- 
2.43.0


From 211bdb64a99f21672f74e88eb3db6103b843136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 081/108] fix: BayeSN dust law uses the sample's Rv

---
 src/lightcurvelynx/models/bayesn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 0e1bcfa..40328f8 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -2,6 +2,7 @@ import h5py
 import numpy as np
 from astropy import units as u
 from citation_compass import CiteClass
+from dust_extinction.parameter_averages import F99
 
 from lightcurvelynx import _LIGHTCURVELYNX_BASE_DATA_DIR
 from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu
@@ -488,7 +489,7 @@ class BayesnModel(SEDModel, CiteClass):
         # Apply dust extinction law
         # Get ebv such that ebv = Rv/Av
         ebv = params["Av"] / params["Rv"]
-        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest")
+        ext = ExtinctionEffect(extinction_model=F99(Rv=params["Rv"]), ebv=ebv, frame="rest")
         flux_density = ext.apply(flux_density, tau, wavelengths, ebv)
 
         # Apply the fixed distance modulus normalisation factor effect
-- 
2.43.0


From e1790dacd3b98d99e20cdbb082b265225717ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 082/108] fix: BayeSN template is interpolated with a natural
 cubic spline in both directions

---
 src/lightcurvelynx/models/bayesn.py | 174 +---------------------------
 1 file changed, 4 insertions(+), 170 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 40328f8..c0c2cb9 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -3,6 +3,7 @@ import numpy as np
 from astropy import units as u
 from citation_compass import CiteClass
 from dust_extinction.parameter_averages import F99
+from scipy.interpolate import CubicSpline
 
 from lightcurvelynx import _LIGHTCURVELYNX_BASE_DATA_DIR
 from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu
@@ -218,173 +219,9 @@ class BayesnModel(SEDModel, CiteClass):
         J += c[:, None] * invKD[idxs] + d[:, None] * invKD[idxs + 1]
         return J
 
-    def compute_second_derivatives_1d(self, x, y):
-        """
-        Compute natural cubic spline second derivatives (M) for 1D input.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions.
-        y : (n,) array_like
-            Values at knots.
-
-        Returns
-        -------
-        M : (n,) ndarray
-            Second derivatives at knots.
-        """
-        n = len(x)
-        h = np.diff(x)
-
-        # Step1: Compute RHS alpha for the linear system
-        alpha = np.zeros(n)
-        for i in range(1, n - 1):
-            alpha[i] = (3 / h[i]) * (y[i + 1] - y[i]) - (3 / h[i - 1]) * (y[i] - y[i - 1])
-
-        # Step 2: Forward elimination (Thomas algorithm for tridiagonal system)
-        wave = np.ones(n)
-        mu = np.zeros(n)
-        z = np.zeros(n)
-        for i in range(1, n - 1):
-            wave[i] = 2 * (x[i + 1] - x[i - 1]) - h[i - 1] * mu[i - 1]
-            mu[i] = h[i] / wave[i]
-            z[i] = (alpha[i] - h[i - 1] * z[i - 1]) / wave[i]
-
-        # Step 3: Back substitution to solve for second derivatives
-        M = np.zeros(n)
-        for j in range(n - 2, 0, -1):
-            M[j] = z[j] - mu[j] * M[j + 1]
-        return M
-
-    def compute_2d_second_derivatives(self, x, y, z):
-        """
-        Compute second derivatives in both x and y directions for 2D natural cubic spline.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions in x.
-        y : (m,) array_like
-            Knot positions in y.
-        z : (n, m) array_like
-            Function values on 2D grid.
-
-        Returns
-        -------
-        Mx : (n, m) ndarray
-            Second derivatives with respect to x.
-        My : (n, m) ndarray
-            Second derivatives with respect to y.
-        """
-        n, m = len(x), len(y)
-        Mx = np.zeros((n, m))
-        My = np.zeros((n, m))
-
-        # Compute second derivatives in x-direction (columns)
-        for j in range(m):
-            Mx[:, j] = self.compute_second_derivatives_1d(x, z[:, j])
-
-        # Compute second derivatives in y-direction (rows)
-        for i in range(n):
-            My[i, :] = self.compute_second_derivatives_1d(y, z[i, :])
-
-        return Mx, My
-
-    def evaluate_natural_spline_2d_vectorized(self, x, y, z, Mx, My, xq, yq):
-        """
-        Vectorized 2D natural cubic spline evaluation using second derivatives.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions in x.
-        y : (m,) array_like
-            Knot positions in y.
-        z : (n, m) array_like
-            Function values on 2D grid.
-        Mx : (n, m) array_like
-            Second derivatives w.r.t. x.
-        My : (n, m) array_like
-            Second derivatives w.r.t. y.
-        xq : (p,) array_like
-            Query positions in x.
-        yq : (q,) array_like
-            Query positions in y.
-
-        Returns
-        -------
-        Zq : (p, q) ndarray
-            Interpolated 2D surface values.
-        """
-        xq = np.atleast_1d(xq)
-        yq = np.atleast_1d(yq)
-        nx, ny = len(x), len(y)
-        px, py = len(xq), len(yq)
-
-        xi_idx = np.clip(np.searchsorted(x, xq) - 1, 0, nx - 2)
-        yj_idx = np.clip(np.searchsorted(y, yq) - 1, 0, ny - 2)
-
-        Zq = np.zeros((px, py))
-
-        # Loop over y query points
-        for j in range(py):
-            y0_idx = yj_idx[j]
-            y1_idx = y0_idx + 1
-            hy = y[y1_idx] - y[y0_idx]
-            ay = (y[y1_idx] - yq[j]) / hy
-            by = 1 - ay
-
-            f_y0 = []  # Interpolated values along x at y0
-            f_y1 = []  # Interpolated values along x at y1
-
-            # Loop over x query points
-            for i in range(px):
-                x0_idx = xi_idx[i]
-                x1_idx = x0_idx + 1
-                hx = x[x1_idx] - x[x0_idx]
-                ax = (x[x1_idx] - xq[i]) / hx
-                bx = 1 - ax
-
-                # Values at 4 corners
-                z00 = z[x0_idx, y0_idx]
-                z10 = z[x1_idx, y0_idx]
-                z01 = z[x0_idx, y1_idx]
-                z11 = z[x1_idx, y1_idx]
-
-                Mx00 = Mx[x0_idx, y0_idx]
-                Mx10 = Mx[x1_idx, y0_idx]
-                Mx01 = Mx[x0_idx, y1_idx]
-                Mx11 = Mx[x1_idx, y1_idx]
-
-                # Interpolate in x for both fixed y0 and y1
-                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx / 6 + (
-                    ax * (z00 - Mx00 * hx**2 / 6) + bx * (z10 - Mx10 * hx**2 / 6)
-                )
-                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx / 6 + (
-                    ax * (z01 - Mx01 * hx**2 / 6) + bx * (z11 - Mx11 * hx**2 / 6)
-                )
-
-                f_y0.append(fx0)
-                f_y1.append(fx1)
-
-            # Interpolate final result in y
-            f_y0 = np.array(f_y0)
-            f_y1 = np.array(f_y1)
-
-            # Spline in y using fx0 and fx1
-            My0 = My[xi_idx, y0_idx]
-            My1 = My[xi_idx, y1_idx]
-
-            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy / 6 + (
-                ay * (f_y0 - My0 * hy**2 / 6) + by * (f_y1 - My1 * hy**2 / 6)
-            )
-
-        return Zq
-
     def evaluate_2d_cubic_spline(self, x, y, z, xq, yq):
         """
-        Evaluate 2D natural cubic spline at given query points with auto second derivative computation.
+        Evaluate 2D natural cubic spline at given query points.
 
         Parameters
         ----------
@@ -404,11 +241,8 @@ class BayesnModel(SEDModel, CiteClass):
         Zq : (p, q) ndarray
             Interpolated values at query grid.
         """
-        # Automatically compute second derivatives in both directions
-        Mx, My = self.compute_2d_second_derivatives(x, y, z)
-
-        # Evaluate spling using the precomputed derivatives
-        return self.evaluate_natural_spline_2d_vectorized(x, y, z, Mx, My, xq, yq)
+        z_at_yq = CubicSpline(y, z, axis=1, bc_type="natural")(np.atleast_1d(yq))
+        return CubicSpline(x, z_at_yq, axis=0, bc_type="natural")(np.atleast_1d(xq))
 
     def mask_by_time(self, times, graph_state=None):
         """Compute a mask for whether a given time is of interest for a given object.
-- 
2.43.0


From afca1d72a6351e0422521ab10eb67205c17d2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 083/108] fix: draw rows of tables with a single column

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 221f6bb..27fa869 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -312,6 +312,8 @@ class TableSampler(NumpyRandomFunc):
             else:
                 results.append(attr_values)
 
-        # Save and return the results.
+        # Save and return the results. If we only have a single column, use its values directly.
+        if len(self.outputs) == 1:
+            results = results[0]
         self._save_results(results, graph_state)
         return results
-- 
2.43.0


From e4e5709396272a161bf3cf2ae840fd01168cbc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 084/108] fix: keep the conditions and constraints of a Bilby
 PriorDict

---
 src/lightcurvelynx/math_nodes/bilby_priors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/bilby_priors.py b/src/lightcurvelynx/math_nodes/bilby_priors.py
index 2dc6564..2b06394 100644
--- a/src/lightcurvelynx/math_nodes/bilby_priors.py
+++ b/src/lightcurvelynx/math_nodes/bilby_priors.py
@@ -48,8 +48,9 @@ class BilbyPriorNode(FunctionNode, CiteClass):
         if seed is not None:
             self.set_seed(seed)
 
-        # Set the prior. If the prior is provided as a dictionary, convert it to a Bilby
-        # PriorDict object.
+        # Set the prior. If the prior is provided as a (plain) dictionary, convert it to a Bilby
+        # PriorDict object. A PriorDict is itself a dictionary, but must be kept as it is so we do
+        # not lose its conditions or constraints.
         if isinstance(prior, dict):
             try:
                 from bilby.core.prior import PriorDict
@@ -58,7 +59,8 @@ class BilbyPriorNode(FunctionNode, CiteClass):
                     "Bilby package is not installed be default. To use the bilby priors, "
                     "please install it. For example, you can install it with `pip install bilby`."
                 ) from err
-            prior = PriorDict(prior)
+            if not isinstance(prior, PriorDict):
+                prior = PriorDict(prior)
         if len(prior) == 0:
             raise ValueError("The provided prior is empty.")
         self.prior = prior
-- 
2.43.0


From 6114223fc4319dcff98d363eb728583d391a1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 085/108] fix: sample Bilby priors with constraints

---
 src/lightcurvelynx/math_nodes/bilby_priors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/bilby_priors.py b/src/lightcurvelynx/math_nodes/bilby_priors.py
index 2b06394..1ead68f 100644
--- a/src/lightcurvelynx/math_nodes/bilby_priors.py
+++ b/src/lightcurvelynx/math_nodes/bilby_priors.py
@@ -65,8 +65,9 @@ class BilbyPriorNode(FunctionNode, CiteClass):
             raise ValueError("The provided prior is empty.")
         self.prior = prior
 
-        # Set the outputs to be the names of the parameters in the prior.
-        outputs = [param for param in prior]
+        # Set the outputs to be the names of the parameters in the prior. The constraints only
+        # restrict the other parameters, so they are not sampled themselves.
+        outputs = [param for param in prior if param not in prior.constraint_keys]
         super().__init__(self._non_func, outputs=outputs, **kwargs)
 
     def set_seed(self, new_seed):
-- 
2.43.0


From d0aa3b32b405e85db918e1f2546779b895b8d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 086/108] fix: allow JAX to differentiate the SALT2 model

---
 src/lightcurvelynx/models/salt2_jax.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/salt2_jax.py b/src/lightcurvelynx/models/salt2_jax.py
index f8f55d7..efe4d21 100644
--- a/src/lightcurvelynx/models/salt2_jax.py
+++ b/src/lightcurvelynx/models/salt2_jax.py
@@ -1,7 +1,9 @@
 from pathlib import Path
 
+import numpy as np
 from astropy import units as u
 from citation_compass import CiteClass
+from jax.core import Tracer
 
 from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw
 from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu
@@ -178,12 +180,15 @@ class SALT2JaxModel(SEDModel, CiteClass):
             * 10.0 ** (-0.4 * self._colorlaw.apply(wavelengths) * params["c"])
         )
 
-        # Convert to the correct units.
-        flux_density = flam_to_fnu(
-            flux_density,
+        # Convert to the correct units. The conversion is a factor for each wavelength, which we
+        # compute on its own so that JAX can trace the flux density through it.
+        conversion = flam_to_fnu(
+            np.ones(len(wavelengths)),
             wavelengths,
             wave_unit=u.AA,
             flam_unit=self._FLAM_UNIT,
             fnu_unit=u.nJy,
         )
-        return flux_density
+        if not isinstance(flux_density, Tracer):
+            flux_density = np.asarray(flux_density)
+        return flux_density * conversion
-- 
2.43.0


From c8084642fb3430b52a69a1c861171ae31e5eea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 087/108] fix: load the Roman passband preset when the units or
 a forced download are given

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 0574c26..6ca0bb5 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -345,6 +345,8 @@ class PassbandGroup:
             )
 
         force_download = kwargs.get("force_download", False)
+        # The table is converted to Angstroms below, so only the grid settings apply to each passband.
+        pb_kwargs = {key: value for key, value in kwargs.items() if key not in ("units", "force_download")}
         table_path = table_dir / "Roman" / "roman_wfi_filters.ecsv"
         table_url = (
             "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/"
@@ -364,7 +366,7 @@ class PassbandGroup:
 
         for filter_name in ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]:
             table_values = np.vstack([waves, table[filter_name].values.astype(float)]).T
-            pb = Passband(table_values, "Roman", filter_name, **kwargs)
+            pb = Passband(table_values, "Roman", filter_name, **pb_kwargs)
             passbands.append(pb)
         return passbands
 
-- 
2.43.0


From 8f4a355323e5e8d5cb06cfc1533aabab0854c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 088/108] fix: replace an existing data file when a download is
 forced

---
 src/lightcurvelynx/utils/data_download.py | 25 +++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/utils/data_download.py b/src/lightcurvelynx/utils/data_download.py
index 1f805ba..d603cde 100644
--- a/src/lightcurvelynx/utils/data_download.py
+++ b/src/lightcurvelynx/utils/data_download.py
@@ -40,12 +40,25 @@ def download_data_file_if_needed(data_path, data_url, force_download=False):
     data_path.parent.mkdir(parents=True, exist_ok=True)
 
     # Use pooch to download the data files and extract them to the data directory.
-    full_path = pooch.retrieve(
-        url=data_url,
-        known_hash=None,
-        fname=data_path.name,
-        path=data_path.parent,
-    )
+    # Pooch does not download a file that already exists, so set aside the current file (if any)
+    # and put it back if we cannot get the new one.
+    previous = None
+    if data_path.exists():
+        previous = data_path.with_name(f"{data_path.name}.previous")
+        data_path.replace(previous)
+    try:
+        full_path = pooch.retrieve(
+            url=data_url,
+            known_hash=None,
+            fname=data_path.name,
+            path=data_path.parent,
+        )
+    finally:
+        if previous is not None:
+            if data_path.exists():
+                previous.unlink()
+            else:
+                previous.replace(data_path)
 
     if full_path is None or not Path(full_path).exists():
         logger.error(f"Transmission table not downloaded from {data_url}.")
-- 
2.43.0


From ed4265930279ab49c3ac4d4b7c3268adbde752f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 089/108] fix: read observation databases whose file names hold
 URI characters

---
 src/lightcurvelynx/obstable/obs_table.py    | 2 +-
 src/lightcurvelynx/obstable/ztf_obstable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index cee212f..e673cb7 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -275,7 +275,7 @@ class ObsTable:
         """
         if not Path(filename).is_file():
             raise FileNotFoundError(f"db file {filename} not found.")
-        con = sqlite3.connect(f"file:{filename}?mode=ro", uri=True)
+        con = sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=ro", uri=True)
 
         # Read the table.
         try:
diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index 27515a0..a14732c 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -140,7 +140,7 @@ class ZTFObsTable(ObsTable):
 
         if not Path(filename).is_file():
             raise FileNotFoundError(f"ObsTable file {filename} not found.")
-        con = sqlite3.connect(f"file:{filename}?mode=ro", uri=True)
+        con = sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=ro", uri=True)
 
         # Read the table.
         try:
-- 
2.43.0


From 2b50df0dd55c36bd353fc8d36906aef22fdd90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 090/108] fix: accept a single position in the footprint's
 centring rotation

---
 src/lightcurvelynx/astro_utils/detector_footprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/detector_footprint.py b/src/lightcurvelynx/astro_utils/detector_footprint.py
index 4ce9916..e751949 100644
--- a/src/lightcurvelynx/astro_utils/detector_footprint.py
+++ b/src/lightcurvelynx/astro_utils/detector_footprint.py
@@ -124,10 +124,10 @@ class DetectorFootprint:
 
         # Center everything on 0.0
         lon_t = offset.lon.deg
-        lon_t[lon_t > 180.0] -= 360.0
+        lon_t = np.where(lon_t > 180.0, lon_t - 360.0, lon_t)
 
         lat_t = offset.lat.deg
-        lat_t[lat_t > 90.0] -= 180.0
+        lat_t = np.where(lat_t > 90.0, lat_t - 180.0, lat_t)
 
         return lon_t, lat_t
 
-- 
2.43.0


From d78d40fe1b6ac21d1cf7aa39155d40931912fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 091/108] fix: filter an observation table by an empty list of
 rows

---
 src/lightcurvelynx/obstable/obs_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index e673cb7..64400a0 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -477,7 +477,8 @@ class ObsTable:
             mask = rows
         else:
             mask = np.full((len(self._table),), False)
-            mask[rows] = True
+            if rows.size > 0:
+                mask[rows] = True
 
         # Filter the rows in-place and build a new kd-tree.
         self._table = self._table[mask].reset_index(drop=True)
-- 
2.43.0


From 8419139e6a5a77c3aa9a3a558a7547e217667ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 092/108] fix: keep list-valued parameters whole when joining
 sample sets

---
 src/lightcurvelynx/graph_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 541bc36..8525126 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -337,7 +337,8 @@ class GraphState:
             # from each of the GraphStates.
             values_list = []
             for current in graph_states:
-                values_list.append(np.atleast_1d(current[full_name]))
+                value = current[full_name]
+                values_list.append(np.array([value]) if current.num_samples == 1 else np.asarray(value))
             values = np.concatenate(values_list)
             if total_samples == 1 and len(values) == 1:
                 values = values[0]  # A single sample stores its values without the sample dimension.
-- 
2.43.0


From b72bf4f2761c2f0f589990771d870a0ff1654c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 093/108] fix: mark the merged group wavelength, not its
 neighbour, as used by a light curve template's filter

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 23455ac..f8d5f39 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -465,7 +465,8 @@ class BaseLightcurveTemplateModel(BandfluxModel, ABC):
             # for this filter and find their indices in the passband group.
             is_significant = passbands[filter].processed_transmission_table[:, 1] > 1e-5
             significant_waves = passbands[filter].waves[is_significant]
-            indices = np.searchsorted(passbands.waves, significant_waves)
+            # (the group may have merged a wavelength into a slightly smaller one).
+            indices = np.searchsorted(passbands.waves, significant_waves, side="right") - 1
 
             # Mark all non-negligible wavelengths as used by this filter.
             waves_per_filter[idx, indices] = 1.0
-- 
2.43.0


From 5e2b8374f392cad945002749b96e4012318ae125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:29 +0000
Subject: [PATCH 094/108] fix: report the dependency between two parameters of
 the same node

---
 src/lightcurvelynx/base_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index f36b3a7..aac7162 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -710,6 +710,10 @@ class ParameterizedNode:
             if setter.dependency is not None and setter.dependency != self:
                 dep_name = GraphState.extended_param_name(setter.dependency.node_string, setter.value)
                 setter.dependency._dependency_graph_helper(dependency_graph)
+            elif setter.dependency is not None:
+                # The parameter is linked to another of this node's own parameters.
+                dep_name = GraphState.extended_param_name(node_name, setter.value)
+                dependency_graph.add_parameter(setter.value, node_name)
             elif setter.source_type == ParameterSource.CONSTANT:
                 dep_name = dependency_graph.add_constant(setter.value)
 
-- 
2.43.0


From 4e93552e21b95e57ac0fd2f91789e685e32507cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:29 +0000
Subject: [PATCH 095/108] fix: apply a rest frame effect only once to an object
 used multiple times in a combination

---
 .../models/multi_object_model.py              | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 02d2e45..7233f6e 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -100,6 +100,22 @@ class MultiObjectModel(SEDModel):
         for object in self.objects:
             object.set_apply_redshift(apply_redshift)
 
+    def _list_unique_objects(self):
+        """List each (non-combination) object below this model once, in order.
+
+        Returns
+        -------
+        unique_objects : list
+            The unique objects.
+        """
+        unique_objects = []
+        for object in self.objects:
+            members = object._list_unique_objects() if isinstance(object, MultiObjectModel) else [object]
+            for member in members:
+                if not any(member is other for other in unique_objects):
+                    unique_objects.append(member)
+        return unique_objects
+
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
 
@@ -109,8 +125,9 @@ class MultiObjectModel(SEDModel):
             The effect to add to the model.
         """
         if effect.rest_frame:
-            # The rest frame effects are applied to each object.
-            for object in self.objects:
+            # The rest frame effects are applied to each object (and only once to an object
+            # that is used multiple times, such as a shared host).
+            for object in self._list_unique_objects():
                 object.add_effect(effect)
         else:
             # Add observer frame effects to this model.
-- 
2.43.0


From 02bab5db396377ff6c33767d49820554c7e387dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:26 +0000
Subject: [PATCH 096/108] fix: judge the regularity of an interpolation axis
 relative to its step

---
 src/lightcurvelynx/utils/bicubic_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/bicubic_interp.py b/src/lightcurvelynx/utils/bicubic_interp.py
index 8f8a868..97f99da 100644
--- a/src/lightcurvelynx/utils/bicubic_interp.py
+++ b/src/lightcurvelynx/utils/bicubic_interp.py
@@ -300,7 +300,7 @@ class BicubicAxis:
         step_sizes = self.values[1:] - self.values[:-1]
         min_step = jnp.min(step_sizes)
         max_step = jnp.max(step_sizes)
-        if max_step - min_step > 1e-6:
+        if max_step - min_step > jnp.minimum(1e-6, 1e-5 * max_step):
             self.regular_steps = False
             self.step_size = None
             self._initial_search = self._search_nonregular
-- 
2.43.0


From 1ee39d2844ffe5fecff29025f31ed230f013aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:17 +0000
Subject: [PATCH 097/108] fix: draw light curves given without filters

---
 src/lightcurvelynx/utils/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index df6ccb1..343a38a 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -66,8 +66,8 @@ def plot_lightcurves(
 
     # Set up a list of filters to display.
     if filters is None:
-        filters = ["none"] * num_pts
-        unique_filters = set(["None"])
+        filters = np.full(num_pts, "None")
+        unique_filters = np.unique(filters)
     elif len(filters) == num_pts:
         filters = np.asarray(filters)
         unique_filters = np.unique(filters)
-- 
2.43.0


From 1a2dba7a0c95e48be32785183cd517f31ea88825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:17 +0000
Subject: [PATCH 098/108] fix: repeat the default colors when there are more
 filters than colors

---
 src/lightcurvelynx/utils/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index 343a38a..876afcb 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -82,7 +82,7 @@ def plot_lightcurves(
         colormap = {}
         colors = "bgrcmyk"
         for i, f in enumerate(unique_filters):
-            colormap[f] = colors[i]
+            colormap[f] = colors[i % len(colors)]
 
     # Plot the data with one line for each filter.
     for filter in unique_filters:
-- 
2.43.0


From ac27e38817c7aa8dbfb0fae22a09ad9eb28a4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:17 +0000
Subject: [PATCH 099/108] fix: give each plotted light curve its own default
 times

---
 src/lightcurvelynx/utils/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index 876afcb..2ba7927 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -167,9 +167,8 @@ def plot_bandflux_lightcurves(bandflux, times=None, ax=None, figure=None, title=
     if isinstance(bandflux, np.ndarray):
         bandflux = {"lightcurve": bandflux}
     for name, curve in bandflux.items():
-        if times is None:
-            times = np.arange(len(curve))
-        ax.plot(times, curve, marker="o", label=name)
+        curve_times = np.arange(len(curve)) if times is None else times
+        ax.plot(curve_times, curve, marker="o", label=name)
 
     # Set the title and axis labels.
     if title is not None:
-- 
2.43.0


From b51c3670064933b4da1638ea536301898e20eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:17 +0000
Subject: [PATCH 100/108] fix: keep overlaid points and the footprint in view

---
 src/lightcurvelynx/astro_utils/detector_footprint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/detector_footprint.py b/src/lightcurvelynx/astro_utils/detector_footprint.py
index e751949..51a495d 100644
--- a/src/lightcurvelynx/astro_utils/detector_footprint.py
+++ b/src/lightcurvelynx/astro_utils/detector_footprint.py
@@ -291,13 +291,13 @@ class DetectorFootprint:
             ax.legend()
 
             # Adjust the bounding box to include all the points.
-            if xmin < pixel_x.min():
+            if xmin > pixel_x.min():
                 xmin = pixel_x.min() - 2.0
-            if xmax > pixel_x.max():
+            if xmax < pixel_x.max():
                 xmax = pixel_x.max() + 2.0
-            if ymin < pixel_y.min():
+            if ymin > pixel_y.min():
                 ymin = pixel_y.min() - 2.0
-            if ymax > pixel_y.max():
+            if ymax < pixel_y.max():
                 ymax = pixel_y.max() + 2.0
 
         ax.set_title("Detector Footprint")
-- 
2.43.0


From 17ad966d61c0dc6fa3d4f63a6e527d68a911ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:17 +0000
Subject: [PATCH 101/108] fix: plot template light curves at given times as
 they are evaluated

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index f8d5f39..8ce13c6 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -373,7 +373,7 @@ class LightcurveData:
                 plot_values = filter_curve[:, 1]
             else:
                 plot_times = times
-                plot_values = np.interp(times, filter_curve[:, 0], filter_curve[:, 1], left=0.0, right=0.0)
+                plot_values = self.evaluate_sed(np.asarray(times), filter_name)
 
             color = lsst_filter_plot_colors.get(filter_name, "black")
             ax.plot(plot_times, plot_values, color=color, label=filter_name)
-- 
2.43.0


From 3f02c0e4039369cfca41742c91557a9ccf4c1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 102/108] fix: save every requested survey column once

---
 src/lightcurvelynx/simulate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index ce66bb0..d53d122 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -153,6 +153,8 @@ def simulate_lightcurves(
     nested_dict = {"mjd": [], "filter": [], "flux": [], "fluxerr": [], "flux_perfect": [], "survey_idx": []}
     if obstable_save_cols is None:
         obstable_save_cols = []
+    # Save each column once (the filter is always saved).
+    obstable_save_cols = [col for col in dict.fromkeys(obstable_save_cols) if col != "filter"]
     for col in obstable_save_cols:
         nested_dict[col] = []
 
-- 
2.43.0


From 822a15d665d2c452fcf8429add30a87f4590a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 103/108] fix: read back ZTF tables built from observation
 dates

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index a14732c..23b59b8 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -75,7 +75,7 @@ class ZTFObsTable(ObsTable):
 
         # Make a copy of the table data with the obsdate converted to the MJD and
         # save in time.
-        if "obsdate" in table and "obsmjd" not in table:
+        if "obsdate" in table and "obsmjd" not in table and "time" not in table:
             table = table.copy()
             t = Time(list(table["obsdate"]), format="iso", scale="utc")
             table["obsmjd"] = t.mjd
-- 
2.43.0


From c4c15cdd20b3acba3cf08a75da00a1346afdaca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 104/108] fix: read back saved Roman tables

---
 src/lightcurvelynx/obstable/roman_obstable.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index 5273865..3875dfb 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -115,6 +115,13 @@ class RomanObsTable(ObsTable):
         super().__init__(self.apt_table, colmap=colmap, **kwargs)
 
     def _append_apt_table(self):
+        self.start_time = 61304.0
+        self.cadence = 5.0
+
+        # A table that was read back from a file already has the derived columns.
+        if "zp_nJy" in self.apt_table.columns or "zp" in self.apt_table.columns:
+            return
+
         self.apt_table["zp_abmag"] = 0.0
         self.apt_table["N_Eff_Pix"] = 0.0
         self.apt_table["zodi_countrate_min"] = 0.0
@@ -137,8 +144,6 @@ class RomanObsTable(ObsTable):
             self.apt_table.loc[mat_number == self.apt_table.MA_TABLE_NUMBER, "exptime"] = exptime
 
         npass = len(np.unique(self.apt_table.PASS))
-        self.start_time = 61304.0
-        self.cadence = 5.0
         times = self.start_time + self.cadence * np.arange(npass)
         for i, pass_num in enumerate(np.unique(self.apt_table.PASS)):
             self.apt_table.loc[pass_num == self.apt_table.PASS, "time"] = times[i]
-- 
2.43.0


From d4d0ad98d3088fd106f01a6634bbb1c6c406bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:12 +0000
Subject: [PATCH 105/108] fix: do not save the row labels of an observation
 table to a database

---
 src/lightcurvelynx/obstable/obs_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 64400a0..ec56728 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -412,7 +412,8 @@ class ObsTable:
 
         con = sqlite3.connect(filename)
         try:
-            self._table.to_sql(tablename, con, if_exists=if_exists)
+            # The row labels are only positions, so there is no need to save them.
+            self._table.to_sql(tablename, con, if_exists=if_exists, index=False)
         except Exception:
             raise ValueError("Database write failed.") from None
 
-- 
2.43.0


From 55a31ef636be4449798bc19e035b0586f798c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:12 +0000
Subject: [PATCH 106/108] fix: accept numpy numbers as constant survey settings

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 4 +++-
 src/lightcurvelynx/obstable/obs_table.py      | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index b4deff5..2c1d76d 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import numpy as np
 
 from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std
@@ -107,7 +109,7 @@ class FakeObsTable(ObsTable):
 
         if const_flux_error is not None:
             # Convert a constant into a per-band dictionary.
-            if isinstance(const_flux_error, int | float):
+            if isinstance(const_flux_error, Real):
                 self.const_flux_error = {fil: const_flux_error for fil in self.filters}
 
             # Check that every filter occurs in the dictionary with a non-negative value.
diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index ec56728..12996d5 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -3,6 +3,7 @@ information. ObsTable class is a base class with specific implementations
 for different survey data, such as Rubin and ZTF."""
 
 import sqlite3
+from numbers import Real
 from pathlib import Path
 
 import astropy.units as u
@@ -198,7 +199,7 @@ class ObsTable:
         value = self.survey_values[colname]
 
         # If the value is a single number, convert it to a dictionary with the same value for all bands.
-        if isinstance(value, int | float):
+        if isinstance(value, Real):
             value = {fil: value for fil in self.filters}
 
         # Fill in the information for each filter.
@@ -206,7 +207,7 @@ class ObsTable:
         for fil in self.filters:
             if fil not in value:
                 raise ValueError(f"`{colname}` must include all the filters in the table. Missing '{fil}'.")
-            if not isinstance(value[fil], int | float):
+            if not isinstance(value[fil], Real):
                 raise ValueError(f"`{colname}` must map filter names to numeric values.")
             if check_positive and value[fil] <= 0:
                 raise ValueError(f"`{colname}` values must be positive. Got {value[fil]} for filter {fil}.")
-- 
2.43.0


From 6055877abda2859c3b3a7fca11d9f6b49cab186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:12 +0000
Subject: [PATCH 107/108] fix: write survey settings that are numpy values to
 parquet

---
 src/lightcurvelynx/obstable/obs_table.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 12996d5..9aee1a4 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -17,6 +17,15 @@ from scipy.spatial import KDTree
 from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
 
 
+def _to_plain_values(value):
+    """Convert (possibly nested) numpy values to Python values, which can be saved as metadata."""
+    if isinstance(value, dict):
+        return {key: _to_plain_values(entry) for key, entry in value.items()}
+    if isinstance(value, np.generic | np.ndarray):
+        return value.tolist()
+    return value
+
+
 class ObsTable:
     """A wrapper class around the observations table with helper computation functions and
     cached data for efficiency.
@@ -439,7 +448,7 @@ class ObsTable:
             raise FileExistsError(f"File {filename} already exists.")
 
         # Save all the survey data as metadata.
-        self._table.attrs["lightcurvelynx_survey_data"] = self.survey_values
+        self._table.attrs["lightcurvelynx_survey_data"] = _to_plain_values(self.survey_values)
         self._table.to_parquet(filename)
 
     def time_bounds(self):
-- 
2.43.0


From e058891ca952c4b533548b98cd20cb516c7d61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:12 +0000
Subject: [PATCH 108/108] fix: keep the order of template filters the same in
 every process

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 8ce13c6..d458ff3 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -231,8 +231,8 @@ class LightcurveData:
         if filters is None:
             filters = filter_cols
         else:
-            to_keep = set(filter_cols) & set(filters)
-            filters = list(to_keep)
+            to_keep = set(filters)
+            filters = [col for col in filter_cols if col in to_keep]
         if len(filters) == 0:
             raise ValueError("Light curves table must have at least one filter column.")
 
@@ -802,7 +802,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             self.all_filters.update(lc.filters)
         self.lightcurves = lightcurves
 
-        super().__init__(passbands, filters=list(self.all_filters), **kwargs)
+        super().__init__(passbands, filters=sorted(self.all_filters), **kwargs)
 
         all_inds = [i for i in range(len(lightcurves))]
         self._sampler_node = GivenValueSampler(all_inds, weights=weights)
@@ -812,7 +812,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         # Create a parameter to track the baseline values for the selected light curve. The node
         # will automatically fill in the correct baseline value based on the index given by
         # the selected_lightcurve parameter.
-        for fltr in self.all_filters:
+        for fltr in sorted(self.all_filters):
             baselines = [lc.baseline.get(fltr, 0.0) for lc in lightcurves]
             baseline_selector = GivenValueSelector(baselines, self.selected_lightcurve)
             self.add_parameter(f"baseline_{fltr}", value=baseline_selector, allow_gradient=False)
-- 
2.43.0

