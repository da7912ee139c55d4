From 4c941a4cf8dd5cdc6cfbf28b0f4397e1b8d786ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 01/26] fix: split_node keeps the liquid water of the split
 layer

The liquid water content is a volumetric fraction, so halving it together
with the height lost half of the layer's water.
---
 cosipy/cpkernel/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 94072a1..a8124d0 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -502,7 +502,7 @@ class Grid:
                 self.get_node_height(pos) / 2.0,
                 self.get_node_density(pos),
                 self.get_node_temperature(pos),
-                self.get_node_liquid_water_content(pos) / 2.0,
+                self.get_node_liquid_water_content(pos),
                 self.get_node_ice_fraction(pos),
             ),
         )
@@ -511,7 +511,7 @@ class Grid:
             self.get_node_height(pos) / 2.0,
             self.get_node_temperature(pos),
             self.get_node_ice_fraction(pos),
-            self.get_node_liquid_water_content(pos) / 2.0,
+            self.get_node_liquid_water_content(pos),
         )
 
         self.number_nodes += 1
-- 
2.43.0


From e363aa226cbee982c2eb436f6bfbda3b713db231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 02/26] fix: log_profile leaves a single thin ice layer in
 place

merge_nodes(-1) merged the only layer with itself and emptied the grid.
---
 cosipy/cpkernel/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index a8124d0..e45a804 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -419,7 +419,7 @@ class Grid:
 
             # if the last layer is smaller than the required height,
             # then merge with the previous layer
-            elif hrest < last_layer_height:
+            elif (hrest < last_layer_height) & (idx > 0):
                 self.merge_nodes(idx - 1)
 
             idx = idx + 1
-- 
2.43.0


From bd1d21417e1b9b6d0303ead023369352649af650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 03/26] fix: adaptive_profile does not index past a single
 layer

---
 cosipy/cpkernel/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index e45a804..cf2a0ba 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -472,7 +472,11 @@ class Grid:
         # remeshing layer 0 done by correct_layer above
         min_ice_idx = max(1, self.get_number_snow_layers())
         # Ensure top ice layer has first_layer_height when thin snow layers will be removed in update_grid
-        if (min_ice_idx == 1) & (self.get_node_height(0) < first_layer_height):
+        if (
+            (min_ice_idx == 1)
+            & (min_ice_idx < self.get_number_layers())
+            & (self.get_node_height(0) < first_layer_height)
+        ):
             self.correct_layer(min_ice_idx, first_layer_height)
             min_ice_idx += 1
 
-- 
2.43.0


From aa0d3315ee3ce0cb1b1df32d671821d2e0259feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:53 +0000
Subject: [PATCH 04/26] fix: subsurface melt uses the layer height before
 melting

The reported melt was multiplied by the already reduced layer height and
was smaller than the water added to the layer.
---
 cosipy/modules/penetratingRadiation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index 0ce21f2..55a0e95 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -94,6 +94,9 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             dtheta_i = (water_density / ice_density) * -dtheta_w
             dh = -dtheta_i / GRID.get_node_ice_fraction(idxNode)
 
+            # Melted water, referring to the layer height before melting
+            layer_melt = dtheta_w * GRID.get_node_height(idxNode)
+
             if dh >= 1.0:
                 list_of_layers_to_remove.append(idxNode)
             else:
@@ -112,9 +115,7 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
                     idxNode, LWC_temp / GRID.get_node_height(idxNode)
                 )
 
-            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
-                idxNode
-            )
+            subsurface_melt = subsurface_melt + layer_melt
         else:
             GRID.set_node_temperature(idxNode, T_rad)
 
-- 
2.43.0


From 978beed22e6c6c9d068f6a9e92ac9d8c19293ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:39 +0000
Subject: [PATCH 05/26] fix: Bougamont snow albedo decays by dt/t* per time
 step, not 1/(t* dt)

---
 cosipy/modules/albedo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/albedo.py b/cosipy/modules/albedo.py
index 2e6afd3..c4ccc4d 100644
--- a/cosipy/modules/albedo.py
+++ b/cosipy/modules/albedo.py
@@ -242,7 +242,7 @@ def method_Bougamont(GRID, surface_temperature: float, albedo_snow: float):
         temperature-dependant decay timescales."""
 
         # slightly faster than one-liner
-        t_star_days = float(t_star) * float(dt_days)
+        t_star_days = float(t_star) / float(dt_days)
         delta_albedo = albedo_snow - albedo_firn
         albedo_snow -= delta_albedo / t_star_days
 
-- 
2.43.0


From 78264eea97dbcabd24f77cc7e39781c0ad8927f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:39 +0000
Subject: [PATCH 06/26] fix: get_snow_heights returns the heights of the snow
 layers also below denser layers

---
 cosipy/cpkernel/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index cf2a0ba..77a3456 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -818,7 +818,8 @@ class Grid:
         """Get the heights of the snow layers."""
         return [
             self.grid[idx].get_layer_height()
-            for idx in range(self.get_number_snow_layers())
+            for idx in range(self.number_nodes)
+            if (self.get_node_density(idx) < snow_ice_threshold)
         ]
 
     def get_ice_heights(self) -> list:
-- 
2.43.0


From 4bcf6910b7428e94f82c8a75825f9fa3bbe1d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 07/26] fix: forcing with SNOWFALL but without RRR has no rain
 instead of crashing

---
 cosipy/cpkernel/cosipy_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index b4aa2fb..51379b0 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -248,6 +248,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
             RAIN = RRR[t]-SNOWFALL*(density_fresh_snow/water_density) * 1000.0
         elif SNOWF is not None:
             SNOWFALL = SNOWF[t]
+            RAIN = 0.0
         elif RRR is not None:
             # Else convert total precipitation [mm] to snowheight [m]; liquid/solid fraction
             SNOWFALL = (RRR[t]/1000.0)*(water_density/density_fresh_snow)*(0.5*(-np.tanh(((T2[t]-zero_temperature) - center_snow_transfer_function) * spread_snow_transfer_function) + 1.0))
-- 
2.43.0


From 6414fd31f958d6b1418cb3438fb3633eac736987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 08/26] fix: secant raises when the iteration limit is reached
 without convergence

---
 cosipy/modules/secant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/secant.py b/cosipy/modules/secant.py
index f399886..82f0e83 100644
--- a/cosipy/modules/secant.py
+++ b/cosipy/modules/secant.py
@@ -49,7 +49,7 @@ def secant(func, x0, args=(), tol=1.48e-8, maxiter=50, x1=None, rtol=0.0):
         q1 = func(p1, *args)
         funcalls += 1
 
-    return p
+    raise RuntimeError("Secant method failed to converge")
 
 
 # EC2021: to be removed when numba supports np.isclose (next release)
-- 
2.43.0


From f02b79a068cff2276bfd8a051c40f870685fe6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 09/26] fix: fallback minimisers of Newton and Secant minimise
 the absolute residual

---
 cosipy/modules/surfaceTemperature.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index f952c0f..023cd2f 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -91,7 +91,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
 
         except (RuntimeError,ValueError):
              # Workaround for non-convergence and unboundedness
-             res = minimize(eb_optim, initial_guess, method='SLSQP',
+             res = minimize(eb_optim_abs, initial_guess, method='SLSQP',
                        bounds=((lower_bnd_ts, upper_bnd_ts),),tol=1e-2,
                        args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     elif sfc_temperature_method == 'Secant':
@@ -103,7 +103,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
 
         except (RuntimeError, ValueError):
             # Workaround for non-convergence and unboundedness
-            res = minimize(eb_optim, initial_guess, method='SLSQP',
+            res = minimize(eb_optim_abs, initial_guess, method='SLSQP',
                            bounds=((lower_bnd_ts, zero_temperature),), tol=1e-2,
                            args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     else:
@@ -555,6 +555,11 @@ def eb_optim(
 # fmt: on
 
 
+def eb_optim_abs(T0: float, *args) -> float:
+    """Absolute residual, for the minimisers used when a root finder fails."""
+    return np.abs(eb_optim(T0, *args))
+
+
 @njit
 def method_EW_Sonntag(T: float) -> float:
     """Get the saturation vapor pressure.
-- 
2.43.0


From 71ef2df6e0d239233b1f137f41dc0557ddf24475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 10/26] fix: restart files written by the model can be loaded
 again

---
 cosipy/cpkernel/init.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cosipy/cpkernel/init.py b/cosipy/cpkernel/init.py
index 264b5ec..1195223 100644
--- a/cosipy/cpkernel/init.py
+++ b/cosipy/cpkernel/init.py
@@ -129,9 +129,15 @@ def load_snowpack(GRID_RESTART):
     layer_LWC = GRID_RESTART.LAYER_LWC.values[0:num_layers]
     layer_IF = GRID_RESTART.LAYER_IF.values[0:num_layers]
 
-    new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
-    new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
-    old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
+    # Restart files use upper case names, WRF_X_CSPY the attribute names
+    if hasattr(GRID_RESTART, "NEWSNOWHEIGHT"):
+        new_snow_height = np.float64(GRID_RESTART.NEWSNOWHEIGHT.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.NEWSNOWTIMESTAMP.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.OLDSNOWTIMESTAMP.values)
+    else:
+        new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
 
     GRID = create_grid_jitted(
         layer_heights,
-- 
2.43.0


From dc5731997581f43396095e989da81d2284f12af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 11/26] fix: restart option no longer crashes on the timestamp
 type

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 302df91..ac9990c 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -135,8 +135,8 @@ class IOClass:
             # Load the restart file
             time_start = Config.time_start
             time_end = Config.time_end
-            start_timestamp = self.get_datetime(time_start)
-            end_timestamp = self.get_datetime(time_end)
+            start_timestamp = self.get_datetime(time_start, use_np=False)
+            end_timestamp = self.get_datetime(time_end, use_np=False)
             timestamp = start_timestamp.strftime("%Y-%m-%dT%H-%M")
             restart_path = os.path.join(
                 Config.data_path, "restart", f"restart_{timestamp}.nc"
-- 
2.43.0


From 04abbf846b9137ca72a4b5d2d6559f6c81996163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 12/26] fix: sort input records by time together with their
 coordinate

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index ac9990c..024d90c 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -281,7 +281,7 @@ class IOClass:
             raise SystemExit(f"Input file not found at: {input_path}")
 
 
-        self.DATA["time"] = np.sort(self.DATA["time"].values)
+        self.DATA = self.DATA.sortby("time")
         minimum_time = str(self.DATA.time.values[0])[0:16]
         maximum_time = str(self.DATA.time.values[-1])[0:16]
         start_interval = self.get_datetime(minimum_time)
-- 
2.43.0


From ce240eca0c041ff8cb8432bb271a80d18beda49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 13/26] fix: bounds of the slope check were swapped

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 024d90c..93edc9c 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -249,7 +249,7 @@ class IOClass:
             "PRES": (1080.0, 400.0),
             "LWin": (400.0, 200.0),
             "SNOWFALL": (0.1, 0.0),
-            "SLOPE": (0.0, 90.0),
+            "SLOPE": (90.0, 0.0),
         }
 
         for key, bounds in data_bounds.items():
-- 
2.43.0


From 6b27a4f650b23a4ff57a6cd3e2c2d0ecb4d4c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 14/26] fix: units and long name of absent RRR and N were
 swapped

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 93edc9c..de6ffd3 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -548,16 +548,16 @@ class IOClass:
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "RRR",
-                spatiotemporal["RRR"][1],
                 spatiotemporal["RRR"][0],
+                spatiotemporal["RRR"][1],
             )
         if "N" not in self.DATA:
             self.add_variable_along_latlontime(
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "N",
-                spatiotemporal["N"][1],
                 spatiotemporal["N"][0],
+                spatiotemporal["N"][1],
             )
 
         print(f"\nOutput dataset ... ok")
-- 
2.43.0


From dde22b52aad843c0a20fc1b56ed9813422253ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 15/26] fix: full field output fails on names without a layer
 profile

---
 cosipy/cpkernel/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index de6ffd3..25f689c 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -31,6 +31,9 @@ class IOClass:
 
         self.internal = self.get_output_variables(Config.output_internal)
         self.full = self.get_output_variables(Config.output_full)
+        # only variables of the layer profile can be stored
+        layer_names = self.get_full_field_metadata()
+        self.full = [value for value in self.full if f"LAYER_{value}" in layer_names]
 
         # Initialize data
         self.DATA = DATA
-- 
2.43.0


From cda57b7765268d2675664abb2c631bdcc64a7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 16/26] fix: pressure at station altitude is the station
 pressure

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index e2c4208..25999a1 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -233,7 +233,7 @@ def get_pressure_bias(data, height):
     slp = data / np.power(
         (1 - (0.0065 * _cfg.station["stationAlt"]) / (288.15)), 5.255
     )
-    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.22)
+    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.255)
 
     return pressure
 
-- 
2.43.0


From 49d4cd083d8f3f44033ea637b971de2235171555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 17/26] fix: latitude and longitude swapped in WRF coordinates
 of aws2cosipy

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index 25999a1..da24ce3 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -214,8 +214,8 @@ def get_variable_metadata(name: str) -> dict:
 def set_dataset_coordinates(dataset, latitude, longitude):
 
     x, y = np.meshgrid(longitude, latitude)
-    dataset.coords["lat"] = (("south_north", "west_east"), x)
-    dataset.coords["lon"] = (("south_north", "west_east"), y)
+    dataset.coords["lat"] = (("south_north", "west_east"), y)
+    dataset.coords["lon"] = (("south_north", "west_east"), x)
 
     return dataset
 
@@ -305,8 +305,8 @@ def create_1D_input(cs_file, cosipy_file, static_file, start_date, end_date):
     if _cfg.coords["WRF"]:
         ds = xr.Dataset()
         lon, lat = np.meshgrid(_cfg.points["plon"], _cfg.points["plat"])
-        ds.coords["lat"] = (("south_north", "west_east"), lon)
-        ds.coords["lon"] = (("south_north", "west_east"), lat)
+        ds.coords["lat"] = (("south_north", "west_east"), lat)
+        ds.coords["lon"] = (("south_north", "west_east"), lon)
 
     else:
         if static_file:
-- 
2.43.0


From 7cb54ee3688f33e670a8637902be658257affdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 18/26] fix: point input on a WRF grid uses the WRF dimensions

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index da24ce3..e536708 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -814,7 +814,11 @@ def add_variable_along_latlon(ds, var, name, units, long_name):
 
 def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
     """Add spatiotemporal point data to a dataset."""
-    ds[name] = (("time", "lat", "lon"), np.reshape(var, (len(var), 1, 1)))
+    data = np.reshape(var, (len(var), 1, 1))
+    if _cfg.coords["WRF"]:
+        ds[name] = (("time", "south_north", "west_east"), data)
+    else:
+        ds[name] = (("time", "lat", "lon"), data)
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
@@ -822,7 +826,10 @@ def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
 
 def add_variable_along_point(ds, var, name, units, long_name):
     """Add point data to a dataset."""
-    ds[name] = (("lat", "lon"), np.reshape(var, (1, 1)))
+    if _cfg.coords["WRF"]:
+        ds[name] = (("south_north", "west_east"), np.reshape(var, (1, 1)))
+    else:
+        ds[name] = (("lat", "lon"), np.reshape(var, (1, 1)))
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
-- 
2.43.0


From 2268495aea079ccd1890546951da8c12e4fe55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:28 +0000
Subject: [PATCH 19/26] fix: solar azimuth angle divided and multiplied outside
 acos

---
 cosipy/modules/radCor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index ff81a0c..85423ab 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -55,7 +55,10 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     zeni = math.pi/2.0 - beta
     
     # Azimuth angle (radians)
-    azi = math.acos((math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)))/math.cos(lat*FAC)*math.sin(zeni)
+    cos_azi = (math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)) / (
+        math.cos(lat * FAC) * math.sin(zeni)
+    )
+    azi = math.acos(min(1.0, max(-1.0, cos_azi)))
     
     if solartime < solarnoon:
         azi = azi * -1.0
-- 
2.43.0


From fe095746e3e8a7f698bbd8883d7ac2289bf5bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:24 +0000
Subject: [PATCH 20/26] fix: WRF conversion stopped on DataArrays given as
 variables

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 67bfef4..6e9e499 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -136,7 +136,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
 
 def add_variable_along_latlon(ds, var, name, units, long_name):
     """Add spatial data to a dataset."""
-    ds[name] = (('south_north','west_east'), var)
+    ds[name] = (('south_north','west_east'), getattr(var, 'values', var))
     ds[name].attrs['units'] = units
     ds[name].attrs['long_name'] = long_name
     ds[name].encoding['_FillValue'] = -9999
-- 
2.43.0


From 8709c045ca443846d07f6d12d8c299c2e0b77aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:24 +0000
Subject: [PATCH 21/26] fix: time stamps of converted WRF data are times, not
 text

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 6e9e499..ce33100 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -52,8 +52,8 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     # Rename the time coordinate
     ds = ds.rename({'XTIME':'Time'})
     
-    # Re-format timestamp (only hour and minutes, no seconds)
-    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).strftime('%Y-%m-%dT%H-%M'))
+    # Round timestamp (only hour and minutes, no seconds)
+    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).floor('min'))
 
     # Select the specified period
     if ((start_date!=None) & (end_date!=None)):
-- 
2.43.0


From eae688c77312ff55bbda72c545d48af4a587dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:24 +0000
Subject: [PATCH 22/26] fix: unit of temperature in converted WRF data

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index ce33100..c4e0e4c 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -67,7 +67,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
  
     # Add variables to file 
     dso = add_variable_along_latlon(dso, ds.HGT[0].values, 'HGT', 'm', 'Elevation')
-    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'm', 'Temperature at 2 m')
+    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'K', 'Temperature at 2 m')
     dso = add_variable_along_timelatlon(dso, wrf_rh(ds.T2.values, ds.Q2.values, ds.PSFC.values), 'RH2', '%', 'Relative humidity at 2 m')
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
-- 
2.43.0


From cddfb0145bab54527daa8e8acdc33730170c1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 23/26] fix: name the arguments of metpy's mixing ratio, whose
 order changed in 1.0

With MetPy >= 1.0 every call of calcRad raised a ValueError.
---
 cosipy/modules/radCor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 85423ab..28f91b7 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -464,7 +464,11 @@ def calcRad(solPars, timecorr, doy, hour, lat, tempgrid, pgrid, rhgrid, cldgrid,
     swidiff = np.full_like(elvgrid, np.nan)
 
     # Mixing ratio from RH and Pres
-    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(rhgrid * units.percent, tempgrid * units.kelvin, pgrid * units.hPa)
+    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(
+        pressure=pgrid * units.hPa,
+        temperature=tempgrid * units.kelvin,
+        relative_humidity=rhgrid * units.percent,
+    )
     vp_interp = np.array(metpy.calc.vapor_pressure(pgrid * units.hPa, mixing_interp))
 
     # Solar geometries
-- 
2.43.0


From bec6e892daadd785c15b9cef2964e7cc9d98bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 24/26] fix: solar parameters beyond the polar circles

solpars raised a math domain error on days without sunrise.
---
 cosipy/modules/radCor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 28f91b7..eb1520d 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -215,7 +215,9 @@ def solpars(lat):
         solparam[j, 2] = 1.00011 + 0.034221 * math.cos(tau) + 0.00128 * math.sin(tau) + 0.000719 * math.cos(2*tau) + 0.000077 * math.sin(2 * tau)
         solparam[j, 3] = 0.006918 - 0.399912 * math.cos(tau) + 0.070257 * math.sin(tau) - 0.006758 * math.cos(2*tau) + 0.000907 * math.sin(2 * tau) - 0.002697 * math.cos(3 * tau) + 0.00148 * math.sin(3 * tau)
         solparam[j, 4] = solparam[j, 3] * 180 / math.pi
-        solparam[j, 5] = math.acos(-math.tan(lat * math.pi / 180) * math.tan(solparam[j, 3])) * 180 / math.pi
+        cos_sunrise = -math.tan(lat * math.pi / 180) * math.tan(solparam[j, 3])
+        # polar day (180 deg) and polar night (0 deg) beyond the polar circles
+        solparam[j, 5] = math.acos(min(1.0, max(-1.0, cos_sunrise))) * 180 / math.pi
         solparam[j, 6] = 2 / 15 * solparam[j, 5]
 
     # Duplicate line 365 for years with 366 days
-- 
2.43.0


From ceee855c33152cca60c5f2250bde7b7566707878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 25/26] fix: solar azimuth of the shading table

The cosine could exceed one by rounding, and hour angles beyond 180 degrees
(time correction) put the sun on the wrong side of the meridian.
---
 cosipy/modules/radCor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index eb1520d..2b3919f 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -361,8 +361,9 @@ def LUTshad(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
                     math.cos(stime * math.pi / 180)
             cos_sol_azi = (sin_h * math.sin(lat * math.pi / 180) - math.sin(soldec)) / math.cos(math.asin(sin_h)) / \
                     math.cos(lat * math.pi / 180)
+            cos_sol_azi = min(1.0, max(-1.0, cos_sol_azi))  # rounding
 
-            if stime > 0:
+            if math.sin(stime * math.pi / 180) > 0:
                 solar_az = math.acos(cos_sol_azi) * 180 / math.pi
             else:
                 solar_az = math.acos(cos_sol_azi) * 180 / math.pi * (-1)
-- 
2.43.0


From 80f7e9ac606acf27a362edd88a2a30dbb3726137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 26/26] fix: shading table uses the sun position of the
 radiation

For time steps other than one hour calcRad takes the middle of the step,
the table took the middle of its first hour.
---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 2b3919f..1208eb5 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -356,7 +356,7 @@ def LUTshad(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
         for hod in np.arange(0, 24, int(STEP / 3600)):
 
             # calculate solar geometries
-            stime = 180 + (15 / 2) - hod * 15 - tcorr + TCART
+            stime = 180 + (STEP / 3600 * 15 / 2) - hod * 15 - tcorr + TCART
             sin_h = math.sin(soldec) * math.sin(lat * math.pi / 180) + math.cos(soldec) * math.cos(lat * math.pi / 180) * \
                     math.cos(stime * math.pi / 180)
             cos_sol_azi = (sin_h * math.sin(lat * math.pi / 180) - math.sin(soldec)) / math.cos(math.asin(sin_h)) / \
-- 
2.43.0

