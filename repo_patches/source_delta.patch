From 3d22b42758da0bbbc9fb76ffef915db395ce0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:07 +0000
Subject: [PATCH 01/27] fix: number grid cells correctly when the domain
 crosses the equator or the prime meridian

getCellNum subtracted absolute values of longitudes and latitudes, so
points on the far side of zero were given the number of another cell.
---
 Utilities/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index 67b5cbe..a0b051f 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -97,8 +97,8 @@ def getCellNum(lon, lat, gridLimit, gridSpace):
             lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):
         raise ValueError('Invalid input on cellNum: cell number is out of range')
 
-    j = abs((abs(lon) - abs(gridLimit['xMin']))) // abs(gridSpace['x'])
-    i = abs((abs(lat) - abs(gridLimit['yMax']))) // abs(gridSpace['y'])
+    j = abs(lon - gridLimit['xMin']) // abs(gridSpace['x'])
+    i = abs(lat - gridLimit['yMax']) // abs(gridSpace['y'])
 
     return int(i * abs((gridLimit['xMax'] - gridLimit['xMin']) // gridSpace['x']) + j)
 
-- 
2.43.0


From 9b4ca95eb6e918bcdd5c6de16ba39de08bf3558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:20 +0000
Subject: [PATCH 02/27] fix: find the nearest index in coordinate arrays of any
 order

---
 Utilities/maputils.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 61a60e9..5f7e4f6 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -707,16 +707,9 @@ def find_index(array, value):
     if type(value) == np.ndarray or type(value) == list:
         raise ValueError("Value cannot be an array")
 
-    if (value > array.max()):
-        # Value is above the largest value in the array - return the last index:
-        return len(array) - 1
-    elif (value < array.min()):
-        # Value is below minimum value in the array - return the first index:
-        return 0
-    else:
-        # argmin gives us the index corresponding to the minimum value of the array.
-        idx = (abs(array - value)).argmin()
-        return idx
+    # argmin gives us the index corresponding to the minimum value of the array.
+    idx = (abs(array - value)).argmin()
+    return idx
 
 def find_nearest(array, value):
     """
-- 
2.43.0


From 937c5dd62eab0b3e55955ff157d527481ce04b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:20 +0000
Subject: [PATCH 03/27] fix: do not modify the caller's array when converting
 temperatures

---
 Utilities/metutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 0226102..aa3601e 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -464,7 +464,7 @@ def convert(value, inunits, outunits):
 
     if inunits in convert_pre:
         if outunits in convert_pre[inunits]:
-            value += convert_pre[inunits][outunits]
+            value = value + convert_pre[inunits][outunits]
 
     if inunits in convert:
         if outunits in convert[inunits]:
@@ -472,7 +472,7 @@ def convert(value, inunits, outunits):
 
     if inunits in convert_post:
         if outunits in convert_post[inunits]:
-            value += convert_post[inunits][outunits]
+            value = value + convert_post[inunits][outunits]
 
     return value
 
-- 
2.43.0


From 8c1a7b0297e005bf6bc60fdeac97be71aae0ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:20 +0000
Subject: [PATCH 04/27] fix: add the missing reverse factors for mercury
 columns to Pascals and radians to metres

---
 Utilities/metutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index aa3601e..58c997b 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -414,8 +414,9 @@ def convert(value, inunits, outunits):
     Pa = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pascals":1.0}
     inHg = {"kPa":3.386388667, "hPa":33.863886667, "Pa":3386.388666667,
-            "mmHg":25.4}
-    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394}
+            "mmHg":25.4, "Pascals":3386.388666667}
+    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394,
+            "Pascals":133.32239}
     pascals = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pa":1.0}
 
@@ -428,7 +429,8 @@ def convert(value, inunits, outunits):
          "rad":0.0000001570783}
     mi = {"km":1.60934, "m":1609.34, "deg":0.014482}
     nm = {"km":1.852, "m":1852, "deg":0.01666, "rad":math.pi/10800.}
-    rad = {"nm":10800./math.pi, "km":6366.248653, "deg":180./math.pi}
+    rad = {"nm":10800./math.pi, "km":6366.248653, "m":6366248.653,
+           "deg":180./math.pi}
 
     # Mixing ratio:
     gkg = {"kgkg":0.001}
-- 
2.43.0


From 40a0c0a19c483fb53326762efcf3cbc801c3e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:17 +0000
Subject: [PATCH 05/27] fix: accept kmh and m/s as output units of a conversion

---
 Utilities/metutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 58c997b..ca88121 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -394,6 +394,10 @@ def convert(value, inunits, outunits):
         inunits = 'kph'
     if inunits == "m/s":
         inunits = "mps"
+    if outunits == 'kmh':
+        outunits = 'kph'
+    if outunits == "m/s":
+        outunits = "mps"
 
     # Speeds:
     mps = {"kph":3.6, "kts":1.944, "mph":2.2369}
-- 
2.43.0


From 69854664db1a75a39186ec714dde9b5c0ba20076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:15 +0000
Subject: [PATCH 06/27] fix: keep grid points on the edge of the hazard region

Region limits were truncated while grid coordinates were rounded, so a
limit such as 130.2 lost the last column of the region.
---
 hazard/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..bf162e4 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -105,15 +105,15 @@ class TileGrid(object):
 
 
         ii, = ((np.round(wf_lon*1000).astype(int) >=
-                int(gridLimit['xMin']*1000)) &
+                int(np.round(gridLimit['xMin']*1000))) &
                (np.round(wf_lon*1000).astype(int) <=
-                int(gridLimit['xMax']*1000))).nonzero()
+                int(np.round(gridLimit['xMax']*1000)))).nonzero()
 
 
         jj, = ((np.round(wf_lat*1000).astype(int) >=
-                int(gridLimit['yMin']*1000)) &
+                int(np.round(gridLimit['yMin']*1000))) &
                (np.round(wf_lat*1000).astype(int) <=
-                int(gridLimit['yMax']*1000))).nonzero()
+                int(np.round(gridLimit['yMax']*1000)))).nonzero()
 
         self.imin = ii[0]
         self.imax = ii[-1]
-- 
2.43.0


From 265d520dc34be896f2249a4dfc7e3c0f68089829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:59 +0000
Subject: [PATCH 07/27] fix: draw the radius perturbation from the simulation's
 own random stream

---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..549127c 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -646,13 +646,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = initEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0, 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0, 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From 45f2fddfceb1b86ebadea2ff762b4747bf331f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:59 +0000
Subject: [PATCH 08/27] fix: seed every simulation, also when the track seed is
 zero

---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 549127c..7538028 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1880,7 +1880,7 @@ def run(configFile, callback=None):
         if callback is not None:
             callback(sim.index, N)
 
-        if sim.seed:
+        if sim.seed is not None:
             global PRNG #TODO: explicitly-pass rather than mutate global state
             PRNG = random.Random(seed=sim.seed, stream=sim.index)
             log.debug('seed %i stream %i', sim.seed, sim.index)
-- 
2.43.0


From a48528ff673c132ce81554188e9098f155e93dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:59 +0000
Subject: [PATCH 09/27] fix: allow a run with a single simulation

---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 7538028..2323246 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1875,7 +1875,7 @@ def run(configFile, callback=None):
 
     for sim in balanced(sims):
         log.debug('Simulating tropical cyclone tracks:' +
-                  ' %3.0f percent complete' % (sim.index / float(N)
+                  ' %3.0f percent complete' % (sim.index / float(max(N, 1))
                                                * 100.))
         if callback is not None:
             callback(sim.index, N)
-- 
2.43.0


From 02f6f34eccae45195beeacdd375e4f7230c77779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:40 +0000
Subject: [PATCH 10/27] fix: keep the direction of the strongest storm when
 combining wind fields

The gust field was updated before the wind components were compared with
it, so the components (and the bearing) always stayed those of the first
track in the file.
---
 wind/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..39c72d4 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -500,9 +500,11 @@ class WindfieldGenerator(object):
 
         for result in results:
             gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
-            gust = np.where(gust1 > gust, gust1, gust)
-            Vx = np.where(gust1 > gust, Vx1, Vx)
-            Vy = np.where(gust1 > gust, Vy1, Vy)
+            mask = gust1 > gust
+            gust = np.where(mask, gust1, gust)
+            bearing = np.where(mask, bearing1, bearing)
+            Vx = np.where(mask, Vx1, Vx)
+            Vy = np.where(mask, Vy1, Vy)
             P = np.where(P1 < P, P1, P)
 
         return (gust, bearing, Vx, Vy, P, lon, lat)
-- 
2.43.0


From 392a90f2ecb3f3bc98c48f3c7c62f91de33b3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:21 +0000
Subject: [PATCH 11/27] fix: honour grid limits that are zero when laying out
 wind grids

---
 Utilities/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 5f7e4f6..1a374e1 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -493,19 +493,19 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
 
     gridSize = int(resolution * 1000)
 
-    if minLon:
+    if minLon is not None:
         minLon_ = int(1000 * (minLon)) - int(1000 * margin)
     else:
         minLon_ = int(1000 * (cLon)) - int(1000 * margin)
-    if maxLon:
+    if maxLon is not None:
         maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
     else:
         maxLon_ = int(1000 * (cLon)) + int(1000 * margin) + 1
-    if minLat:
+    if minLat is not None:
         minLat_ = int(1000 * (minLat)) - int(1000 * margin)
     else:
         minLat_ = int(1000 * (cLat)) - int(1000 * margin)
-    if maxLat:
+    if maxLat is not None:
         maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
     else:
         maxLat_ = int(1000 * (cLat)) + int(1000 * margin) + 1
-- 
2.43.0


From c194348ea244661dcdc2b1088ee92381f89c51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:19 +0000
Subject: [PATCH 12/27] fix: do not wait for a segment another thread has
 already taken

---
 ProcessMultipliers/processMultipliers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..e223ab4 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1059,8 +1059,13 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            # Another thread may take the last segment at any time
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            break
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From 9424bbed18646db6121b90d9594ea6709ef632f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:19 +0000
Subject: [PATCH 13/27] fix: give bearings that round up to 360 degrees the
 northern multiplier

---
 ProcessMultipliers/processMultipliers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index e223ab4..3c8a0f8 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -889,7 +889,8 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
         5: {'dir': 'sw', 'min': 202.5, 'max': 247.5},
         6: {'dir': 'w', 'min': 247.5, 'max': 292.5},
         7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},
-        8: {'dir': 'n', 'min': 337.5, 'max': 360.}
+        # single-precision bearings just west of north round up to 360
+        8: {'dir': 'n', 'min': 337.5, 'max': 360.5}
     }
     band_numbers_for_indices_in_geotiff = [2, 3, 1, 6, 5, 7, 8, 4, 2]
     log.info("Processing all directions")
@@ -1091,7 +1092,8 @@ def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_b
         5: {'dir': 'sw', 'min': 202.5, 'max': 247.5},
         6: {'dir': 'w', 'min': 247.5, 'max': 292.5},
         7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},
-        8: {'dir': 'n', 'min': 337.5, 'max': 360.}
+        # single-precision bearings just west of north round up to 360
+        8: {'dir': 'n', 'min': 337.5, 'max': 360.5}
     }
     [x_offset, y_offset, width, height, segment_id, total_segments] = segment
     with threadLock_gust:
-- 
2.43.0


From b957a47945994388c863429cc6c8fc6a4ad3ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:33 +0000
Subject: [PATCH 14/27] fix: count the age of storms from the start of each
 track when a file is split at jumps

---
 Utilities/loadData.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..569cc8a 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -854,7 +854,6 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
         year, month, day, hour, minute, datetimes = parseDates(inputData,
                                                                indicator,
                                                                inputDateFormat)
-        timeElapsed = getTimeElapsed(indicator, year, month, day, hour, minute)
 
     # Time between observations:
     dt = getTimeDelta(year, month, day, hour, minute)
@@ -876,6 +875,10 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     indicator[np.where(delta_lon > 10)[0] + 1] = 1
     indicator[np.where(delta_lat > 5)[0] + 1] = 1
 
+    # Age of each storm, once all storms have been separated:
+    if 'age' not in inputData.dtype.names:
+        timeElapsed = getTimeElapsed(indicator, year, month, day, hour, minute)
+
     pressure = filterPressure(np.array(inputData['pressure'], 'd'),
                               inputPressureUnits, missingValue)
     try:
-- 
2.43.0


From 63ada71ea18f9d3ae752e13899de94138478bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:49 +0000
Subject: [PATCH 15/27] fix: keep the sign of anticyclonic wind and vorticity
 in the compiled Holland kernels

---
 wind/windmodels.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wind/windmodels.f90 b/wind/windmodels.f90
index a471243..fce419a 100644
--- a/wind/windmodels.f90
+++ b/wind/windmodels.f90
@@ -163,7 +163,7 @@ subroutine fhollandvel(V, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
          V(i) = sqrt((dP * beta / rho) * delta * edelta + (R(i) * f / 2.) ** 2) - R(i) * abs(f) / 2.
       end if
 
-      V(i) = sign(V(i), f)
+      V(i) = sign(1.d0, f) * V(i)
 
    end do
    !$OMP END PARALLEL DO
@@ -202,7 +202,7 @@ subroutine fhollandvort(Z, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
 
-      Z(i) = sign(Z(i), f)
+      Z(i) = sign(1.d0, f) * Z(i)
    end do
    !$OMP END PARALLEL DO
 
-- 
2.43.0


From 8684c5d9d3aa8a7aed6b3fcf3d13a92da201f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:49 +0000
Subject: [PATCH 16/27] fix: return the compiled wind fields for grids that are
 not C ordered

---
 wind/windmodels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index c275928..7513cf8 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -383,7 +383,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvel
-            V = np.empty_like(R)
+            V = np.empty_like(R, order='C')
             fhollandvel(
                 V.ravel(), R.ravel(), d2Vm, dVm, self.rMax,
                 self.vMax, self.beta, self.dP, self.rho, self.f, V.size
@@ -425,7 +425,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvort
-            Z = np.empty_like(R)
+            Z = np.empty_like(R, order='C')
             fhollandvort(
                 Z.ravel(), R.ravel(), d2Vm, dVm, self.rMax, self.vMax,
                 self.beta, self.dP, self.rho, self.f, Z.size
@@ -1087,7 +1087,7 @@ class KepertWindField(WindFieldModel):
                 from ._windmodels import fkerpert
 
                 d2Vm, dVm = self.profile.secondDerivative(), self.profile.firstDerivative()
-                Ux, Vy = np.empty_like(R), np.empty_like(R)
+                Ux, Vy = np.empty_like(R, order='C'), np.empty_like(R, order='C')
                 n = Ux.size
                 fkerpert(
                     R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaFm,
-- 
2.43.0


From d0d4e7625ff4eeb41720d9bd6098ecd6e4bfaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:35 +0000
Subject: [PATCH 17/27] fix: share the track files among processes in the
 landfall rate evaluation

---
 Evaluate/landfallRates.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 2d41ef9..d86b101 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -210,18 +210,24 @@ class LandfallRates(object):
 
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
             n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size() - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            while terminated < p:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 self.processResults(results, n)
                 n += 1
@@ -229,26 +235,26 @@ class LandfallRates(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateStats()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 LOG.debug("Processing %s", trackfile)
                 tracks = loadTracks(trackfile)
                 results = self.processTracks(tracks)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
-- 
2.43.0


From 19e1385e045acd98687fcc0d04846adfdc3d5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:35 +0000
Subject: [PATCH 18/27] fix: share the track files among processes in the
 longitude crossing evaluation

---
 Evaluate/longitudeCrossing.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 6a60fde..8ded06b 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -227,18 +227,24 @@ class LongitudeCrossing(object):
 
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
             n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                               status=None)
+            while terminated < p:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 lonCrossHist[n, :, :], lonCrossEW[n, :, :], \
                     lonCrossWE[n, :, :] = results
@@ -247,19 +253,19 @@ class LongitudeCrossing(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calcStats(lonCrossHist, lonCrossEW, lonCrossWE)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -267,7 +273,7 @@ class LongitudeCrossing(object):
                 tracks = loadTracks(trackfile)
                 lonCross, lonCrossEW, lonCrossWE = self.findCrossings(tracks)
                 results = (lonCross, lonCrossEW, lonCrossWE)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
-- 
2.43.0


From 1a98be04200ec11f0d4246fab49f28f5e13ccf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:35 +0000
Subject: [PATCH 19/27] fix: share the track files among processes in the
 pressure distribution evaluation

---
 Evaluate/pressureDistribution.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 2687230..83f65da 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -257,18 +257,24 @@ class PressureDistribution(object):
         self.synMinCP = np.array([])
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
             n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=None)
+            while terminated < p:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 sMean, sMin, sMax, sMed, sMinCPDist, sMinCP = results
                 synMean[n, :, :] = sMean
@@ -282,19 +288,19 @@ class PressureDistribution(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comn.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans(synMean, synMin, synMed, synMax, synMinCPDist)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -303,7 +309,7 @@ class PressureDistribution(object):
                 sMean, sMin, sMax, sMed = self.calculate(tracks)
                 sMinCPDist, sMinCP = self.calcMinPressure(tracks)
                 results = (sMean, sMin, sMax, sMed, sMinCPDist, sMinCP)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
-- 
2.43.0


From 55960f37369c356757601338b2847c6b831ebb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:35 +0000
Subject: [PATCH 20/27] fix: share the track files among processes in the track
 density evaluation

---
 Evaluate/trackDensity.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index e36163e..b6afddb 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -167,43 +167,49 @@ class TrackDensity(object):
         result_tag = 1
 
         if (comm.rank == 0) and (comm.size > 1):
+            status = MPI.Status()
             w = 0
             n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                              format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                                  format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while (terminated < comm.size - 1):
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=True)
+            while terminated < p:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
                 self.synHist[n, :, :] = results
                 n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while(True):
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 log.debug("Processing %s" % (trackfile))
                 tracks = loadTracks(trackfile)
                 results = self.calculate(tracks) / self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
-- 
2.43.0


From ea9ac7b7b8d49d7f9c5f94a9b03644864d146bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:35 +0000
Subject: [PATCH 21/27] fix: count downward crossings in the winding number
 test

---
 Utilities/Intersections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 3b01b8c..6ddcf5e 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -99,9 +99,9 @@ def _wnPnPoly(P, V):
             if V[i + 1].y > P.y:      # an upward crossing
                 if _isLeft(V[i], V[i + 1], P) > 0:  # P left of edge
                     wn += 1            # have a valid up intersect
-            elif V[i + 1].y <= P.y:     # a downward crossing
-                if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
-                    wn -= 1            # have a valid down intersect
+        elif V[i + 1].y <= P.y:        # a downward crossing
+            if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
+                wn -= 1                # have a valid down intersect
     return wn != 0
 
 
-- 
2.43.0


From 680d588494d31ac0d0f6def91389833f07e8d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:51:11 +0000
Subject: [PATCH 22/27] fix: leave the dates of a track unchanged when saving
 it

Saving tracks replaced the dates of the tracks in memory by numbers.
---
 Utilities/track.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84b6b98..e57ee81 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -324,11 +324,12 @@ def ncSaveTracks(trackfile, tracks,
                                      zlib=True, complevel=8, shuffle=True)
         tvar = tdata.createVariable('track', tdtype, ('time',),
                                     zlib=True, complevel=8, shuffle=True)
-        t.data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
-        times[:] = t.data['Datetime']
+        track_data = t.data.copy()
+        track_data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
+        times[:] = track_data['Datetime']
         times.units = 'hours since 1900-01-01 00:00'
         times.calendar = calendar
-        tvar[:] = t.data.astype(track_dtype)
+        tvar[:] = track_data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
         tvar.time_units = 'hours since 1900-01-01 00:00'
         tvar.calendar = calendar
-- 
2.43.0


From 067673aec6c466ca00241daf293f0e260cb2b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:51:11 +0000
Subject: [PATCH 23/27] fix: label saved track times with the units they are
 saved in

The units were written as a fixed text whatever units the caller asked for.
---
 Utilities/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index e57ee81..143d9fc 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -327,11 +327,11 @@ def ncSaveTracks(trackfile, tracks,
         track_data = t.data.copy()
         track_data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
         times[:] = track_data['Datetime']
-        times.units = 'hours since 1900-01-01 00:00'
+        times.units = timeunits
         times.calendar = calendar
         tvar[:] = track_data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
-        tvar.time_units = 'hours since 1900-01-01 00:00'
+        tvar.time_units = timeunits
         tvar.calendar = calendar
         tvar.lon_units = 'degrees east'
         tvar.lat_units = 'degrees north'
-- 
2.43.0


From 08420f29d4bc73e040915f31f069858a856a8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:51:11 +0000
Subject: [PATCH 24/27] fix: accept arrays as initial values of a netCDF
 variable

The truth value of an array is ambiguous, so passing one raised ValueError.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index bb68bbc..566b9fd 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -244,7 +244,7 @@ def ncCreateVar(ncobj, name, dimensions, dtype, data=None, atts=None, **kwargs):
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From c520ee287511b1fe5f76b6b8f329ffe5f34bd37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:51:11 +0000
Subject: [PATCH 25/27] fix: save the cumulative genesis distribution on its
 grid

The flat list of values was refused for a variable with two dimensions.
---
 StatInterface/KDEOrigin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StatInterface/KDEOrigin.py b/StatInterface/KDEOrigin.py
index e043825..7c8a4a4 100644
--- a/StatInterface/KDEOrigin.py
+++ b/StatInterface/KDEOrigin.py
@@ -234,7 +234,7 @@ class KDEOrigin(object):
                 0: {
                     'name': 'gcdf',
                     'dims': ('lat', 'lon'),
-                    'values': np.array(self.cz),
+                    'values': np.array(self.cz).reshape(xx.shape),
                     'dtype': 'f',
                     'atts': {
                         'long_name': ('TC Genesis cumulative '
-- 
2.43.0


From f305dc9198280444fea3f55b7e63e2a25d49ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:51:11 +0000
Subject: [PATCH 26/27] fix: hand the angle of maximum wind to the wind models
 in degrees

The models convert the angle from degrees themselves. Converting it twice on
the way turned the default of 70 degrees into 0.02 degrees.
---
 wind/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 39c72d4..d7a5859 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -111,7 +111,7 @@ class WindfieldAroundTrack(object):
         self.beta = beta
         self.beta1 = beta1
         self.beta2 = beta2
-        self.thetaMax = math.radians(thetaMax)
+        self.thetaMax = thetaMax
         self.margin = margin
         self.resolution = resolution
         self.gustFactor = gustFactor
@@ -936,8 +936,6 @@ def run(configFile, callback=None):
     if config.has_option('Input', 'Multipliers'):
         multipliers = config.get('Input', 'Multipliers')
 
-    thetaMax = math.radians(thetaMax)
-
     # Attempt to start the track generator in parallel
     global MPI
     MPI = attemptParallel()
-- 
2.43.0


From b030109b164a7f98f91ca1ef2f4ef2e1383d2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:04:27 +0000
Subject: [PATCH 27/27] fix: read dates given in separate columns of a record
 array

A record array without a date column raises ValueError, not KeyError,
so data read from a file with year, month and day columns was refused.
---
 Utilities/loadData.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 569cc8a..9aca088 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -430,8 +430,8 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
     """
     try:
-        year, month, day, hour, minute, datetimes = date2ymdh(data['date'], datefmt)
-    except (KeyError):
+        dates = data['date']
+    except (ValueError, KeyError):
         # Sort out date/time information:
         month = np.array(data['month'], 'i')
         day = np.array(data['day'], 'i')
@@ -462,6 +462,8 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
         datetimes = np.array([datetime(y, m, d, h, mn) for y, m, d, h, mn
                               in zip(year, month, day, hour, minute)])
+    else:
+        year, month, day, hour, minute, datetimes = date2ymdh(dates, datefmt)
 
     return year, month, day, hour, minute, datetimes
 
-- 
2.43.0

