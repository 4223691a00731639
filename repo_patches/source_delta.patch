From a92c67b89310229c010f3420735c4007204bbcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 01/44] fix: stop the simulation at EndTime instead of failing
 on an empty timestep

---
 hapuamod/core.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d117dd9..fd8b01d 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -104,7 +104,11 @@ def main(ModelConfigFile, Overwrite=False):
     PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
     
     MorDt = TimePars['MorDtMin'] # Initial morphological timestep
-    while MorTime <= TimePars['EndTime']:
+    while MorTime < TimePars['EndTime']:
+        
+        # Prevent model from running beyond specified end time
+        TimeLeft = TimePars['EndTime'] - MorTime
+        MorDt = min(MorDt, TimeLeft)
         
         # Re-assemble the combined river channel incase it has evolved
         (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
@@ -120,6 +124,9 @@ def main(ModelConfigFile, Overwrite=False):
         # Run the river model for all the timesteps upto the next morphology step
         HydTimes = pd.date_range(MorTime, MorTime + MorDt, 
                                  freq=TimePars['HydDt'], closed='right')
+        if HydTimes.size == 0:
+            # Less than a complete hydraulic timestep left to the end of the simulation
+            HydTimes = pd.DatetimeIndex([MorTime + MorDt])
         
         RivFlow = interpolate_at(FlowTs, HydTimes).values
         SeaLevel = interpolate_at(SeaLevelTs, HydTimes).values
@@ -172,12 +179,9 @@ def main(ModelConfigFile, Overwrite=False):
                                                OutletChanIx, LagoonWL, OutletDep,
                                                ChanWidth, ChanDep, ChanDx, ChanFlag, 
                                                Closed, LST, Bedload, CST_tot, OverwashProp,
-                                               MorDt, 
-                                               PhysicalPars, TimePars, NumericalPars)
-        
-        # Prevent model from running beyond specified end time
-        if MorDt > TimePars['EndTime'] - MorTime:
-            MorDt = TimePars['EndTime'] - MorTime
+                                               MorDt, PhysicalPars, 
+                                               dict(TimePars, MorDtMax = min(TimePars['MorDtMax'], TimeLeft)), 
+                                               NumericalPars)
         
         # increment time
         MorTime += MorDt
-- 
2.43.0


From c3cba45963bf3ba0937e5b6711c3652262254af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 02/44] fix: keep the adaptive timestep within MorDtMin and
 MorDtMax

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 75ccc14..f660de1 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -181,10 +181,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndXMoveRate))
     
     while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        MorDt /= 2
+        MorDt = max(MorDt/2, TimePars['MorDtMin'])
         logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
     
-    while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt * 2 <= TimePars['MorDtMax'] and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
         MorDt *= 2
         logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
     
-- 
2.43.0


From 7b6fc416b9cab9101efee07987398bfe89f4d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 03/44] fix: do not drop whole days and fractions of a second
 from timesteps

---
 hapuamod/core.py |  2 +-
 hapuamod/mor.py  | 28 ++++++++++++++--------------
 hapuamod/out.py  |  2 +-
 hapuamod/riv.py  |  2 +-
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index fd8b01d..161f669 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -213,7 +213,7 @@ def main(ModelConfigFile, Overwrite=False):
         
         # updates to user
         if MorTime >= LogTime:
-            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.seconds)
+            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.total_seconds())
             LogTime += OutputOpts['LogInt']
             
         # plotting
diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index f660de1..f6d186e 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -180,22 +180,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndAggRate),
                            abs(OutletEndXMoveRate))
     
-    while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
+    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
         MorDt = max(MorDt/2, TimePars['MorDtMin'])
-        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
-    while MorDt * 2 <= TimePars['MorDtMax'] and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt * 2 <= TimePars['MorDtMax'] and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
         MorDt *= 2
-        logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
     #  1. issue warning
     #  2. limit change (while preserving sign) to prevent model blowing up (even though this may be at the expense of mass balance)
-    if MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        assert MorDt.seconds <= TimePars['MorDtMin'].seconds
+    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
         logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',
-                        MaxMorChangeRate * MorDt.seconds, NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
-        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.seconds
+                        MaxMorChangeRate * MorDt.total_seconds(), NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
+        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
         RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
@@ -206,13 +206,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Update morphology
         
     # note that += modifies variables in place so no need to explicitly return them!
-    RiverElev[1:] += RivBedAggRate * MorDt.seconds
-    ShoreZ += ShoreZChangeRate * MorDt.seconds
-    ShoreY += ShoreYChangeRate * MorDt.seconds
+    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
+    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
+    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
-        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.seconds
-        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.seconds
-        OutletEndX[1] += OutletEndXMoveRate * MorDt.seconds
+        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
+        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
     #%% 1. Check if outlet has extended too close to the edge of the domain
     if OutletEndX[1] < ShoreX[1]:
diff --git a/hapuamod/out.py b/hapuamod/out.py
index 94d1cad..093af2b 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -647,6 +647,6 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sed_inflow'][TimeIx] = SedInflow
     NcFile.variables['outlet_end_x'][TimeIx,:] = OutletEndX
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-    NcFile.variables['mordt'][TimeIx] = MorDt.seconds
+    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
     
     NcFile.close()
\ No newline at end of file
diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1dba573..35f2239 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -125,7 +125,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
-    dt = dt.seconds          # timestep for hydraulics [s]
+    dt = dt.total_seconds()          # timestep for hydraulics [s]
     N = z.size               # number of cross-sections
     S_0 = (z[:-1]-z[1:])/dx  # bed slope in each reach between XS [m/m]
     
-- 
2.43.0


From 6bd70857690b0db41742484d880b21c3bd26435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 04/44] fix: pass the steady fallback solution back to the
 caller

---
 hapuamod/riv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 35f2239..cf3f70b 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -301,7 +301,8 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h, V) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            break
 
 def assembleChannel(ShoreX, ShoreY, ShoreZ, 
                     OutletEndX, OutletEndWidth, OutletEndElev, 
-- 
2.43.0


From efb42774d309385b956164e6dc0ddf0b2401306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 05/44] fix: solve again after perturbing a singular matrix,
 repeatably

---
 hapuamod/riv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index cf3f70b..09c4d06 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -267,7 +267,8 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                 Delta = linalg.solve_banded([2,2],a_banded,Err)
             except linalg.LinAlgError as ErrMsg:
                 logging.warning('LinAlgError %s - adding some noise to see if this fixes it...' % ErrMsg)
-                a_banded += np.random.random(a_banded.shape) * 1e-7 - 5e-8
+                a_banded += np.random.default_rng(0).random(a_banded.shape) * 1e-7 - 5e-8
+                Delta = linalg.solve_banded([2,2],a_banded,Err)
             
             # Update h & V
             h -= Delta[np.arange(0,2*N,2)]
-- 
2.43.0


From 8789657065f339683cf11f161a7efabfdad2c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 06/44] fix: do not overwrite the barrier crest when looking
 for overtopping

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index f6d186e..474edd5 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -598,7 +598,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-    CrestHeight = ShoreZ[:,0] # default
+    CrestHeight = ShoreZ[:,0].copy() # default
     CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
     CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan,0] # transects with connected channels (active or relic)
     assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
-- 
2.43.0


From 7ea963b49d9eb13c488cf2e21cb6342458362550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 07/44] fix: take right to left longshore supply of the spit
 off the shoreline

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 474edd5..b0c866a 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -149,8 +149,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndXMoveRate += WidthReductionRate/2
         else:
             # Transport from R to L
-            ShoreY[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
-                                            / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
+            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
+                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                   / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
-- 
2.43.0


From dc16464c207f668568f513622095eb4dba2d21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 08/44] fix: stop the outlet at the right edge of the domain,
 not the left

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index b0c866a..c607c89 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -219,8 +219,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         logging.warning('Left (negative X) end of outlet channel too close to edge of domain - preventing further migration')
         OutletEndX[1] = ShoreX[1]
     if OutletEndX[1] > ShoreX[-2]:
-        logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
-        OutletEndX[1] = ShoreX[1]
+        logging.warning('Right (positive X) end of outlet channel too close to edge of domain - preventing further migration')
+        OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
     CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-- 
2.43.0


From 2ecd3782d1cc8b45c81577d9b7b7b09a4b8ec511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 09/44] fix: do not read uninitialised memory where there is no
 outlet channel

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index c607c89..20d4723 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,7 +446,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #
     # Remove old outlet channel and preserve sediment mass balance
     
-    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]))
+    LagoonIntersect = np.logical_and(~np.isnan(ShoreY[:,1]), ~(ShoreY[:,2] > ShoreY[:,3]))
     if np.any(LagoonIntersect):
         for IntersectIx in np.where(LagoonIntersect)[0]:
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
@@ -516,7 +516,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     Breach = False
     BreachIx = np.nan
     
-    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]))
+    ShoreIntersect = np.logical_and(~np.isnan(ShoreY[:,1]), ~(ShoreY[:,0] > ShoreY[:,1]))
     if np.any(ShoreIntersect):
         # If lagoon closed then check if channel at any eroded location(s) is connected to lagoon via relic channel
         if Closed and np.any(ShoreIntersect[ConnectedChan]):
-- 
2.43.0


From 008986a3a710f1f8b24d5c6b1496074efa694c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 10/44] fix: count the offline lagoon on both sides of a single
 online cross-section

---
 hapuamod/riv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 09c4d06..d2caafd 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -397,8 +397,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             OnlineLagoon = np.array([X0Ix])
             EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
             EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
-        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
-        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
+        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
+        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     elif OutletEndX[0] > 0:
         # Outlet channel to right of river
         if Closed:
@@ -472,7 +472,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     np.full(2, OutletEndWidth)])
     LagArea = np.zeros(ChanElev.size)
     LagArea[RiverElev.size] = StartArea
-    LagArea[RiverElev.size + OnlineLagoon.size - 1] = EndArea
+    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
     LagLen = (ChanFlag==1) * Dx
     LagLen[RiverElev.size] += StartLen
     LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
-- 
2.43.0


From c59d9a61178512f9e79929478f176a011ae09142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 11/44] fix: find the hotstart timestep with current versions
 of netCDF4

---
 hapuamod/out.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 093af2b..c44afeb 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -441,7 +441,8 @@ def readTimestep(NcFile, TimeIx):
     ShoreX = NcFile.variables['transect_x'][:]
     
     ModelTime = netCDF4.num2date(NcFile.variables['time'][TimeIx],
-                                 NcFile.variables['time'].units)
+                                 NcFile.variables['time'].units,
+                                 only_use_cftime_datetimes=False)
     
     # ShoreY
     ShoreY = np.empty((NTransects, 5))
@@ -506,11 +507,12 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
         TimeIx = closestTimeIx(NcFile, DatetimeOfInterest)
     """
     NetCdfTimes = NcFile.variables['time'][:]
-    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units))
+    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units,
+                                                  only_use_cftime_datetimes=False))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
-    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
-    ClosestTime = OutputTimes[TimeIx].to_pydatetime()[0]
+    TimeIx = np.argmin(TimeDiffs)
+    ClosestTime = OutputTimes[TimeIx].to_pydatetime()
     
     return (TimeIx, ClosestTime)
 
-- 
2.43.0


From de2705795a449be761e2359bbf40361d030f1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 12/44] fix: hotstart in double precision so small changes are
 not rounded away

---
 hapuamod/loadmod.py |  2 +-
 hapuamod/out.py     | 32 ++++++++++++++++----------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d7d8304..72bbc7a 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -322,7 +322,7 @@ def loadModel(ModelConfigFile):
         
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
-        assert ShoreX[1] - ShoreX[0] == Dx, 'Dx specified in model config file must match hotstart file'
+        assert np.isclose(ShoreX[1] - ShoreX[0], Dx), 'Dx specified in model config file must match hotstart file'
         
     elif Config['SpatialInputs']['Shoreline'] is None:
         #%% Initialise model with default straight shoreline etc
diff --git a/hapuamod/out.py b/hapuamod/out.py
index c44afeb..88ca446 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -438,7 +438,7 @@ def readTimestep(NcFile, TimeIx):
     Hs_offshore = NcFile.variables['hs_offshore'][TimeIx]
     EDir_h = NcFile.variables['wave_dir'][TimeIx]
     
-    ShoreX = NcFile.variables['transect_x'][:]
+    ShoreX = np.asarray(NcFile.variables['transect_x'][:], dtype=float)
     
     ModelTime = netCDF4.num2date(NcFile.variables['time'][TimeIx],
                                  NcFile.variables['time'].units,
@@ -459,18 +459,18 @@ def readTimestep(NcFile, TimeIx):
     ShoreZ[:,2] = NcFile.variables['inner_barrier_crest_z'][TimeIx,:]
     ShoreZ[:,3] = NcFile.variables['lagoon_bed_z'][TimeIx,:]
     
-    LagoonWL = NcFile.variables['lagoon_wl'][TimeIx,:].squeeze()
-    LagoonVel = NcFile.variables['lagoon_vel'][TimeIx,:].squeeze()
-    OutletWL = NcFile.variables['outlet_wl'][TimeIx,:].squeeze()
-    OutletVel = NcFile.variables['outlet_vel'][TimeIx,:].squeeze()
-    
-    OutletEndX = NcFile.variables['outlet_end_x'][TimeIx,:].squeeze()
-    OutletEndWidth = np.asarray(NcFile.variables['outlet_end_width'][TimeIx].squeeze())
-    OutletEndElev = np.asarray(NcFile.variables['outlet_end_z'][TimeIx].squeeze())
-    OutletEndVel = np.asarray(NcFile.variables['outlet_end_vel'][TimeIx].squeeze())
-    OutletEndWL = np.asarray(NcFile.variables['outlet_end_wl'][TimeIx].squeeze())
-    DummyXsDep = np.asarray(NcFile.variables['dummy_xs_dep'][TimeIx].squeeze())
-    DummyXsVel = np.asarray(NcFile.variables['dummy_xs_vel'][TimeIx].squeeze())
+    LagoonWL = np.asarray(NcFile.variables['lagoon_wl'][TimeIx,:].squeeze(), dtype=float)
+    LagoonVel = np.asarray(NcFile.variables['lagoon_vel'][TimeIx,:].squeeze(), dtype=float)
+    OutletWL = np.asarray(NcFile.variables['outlet_wl'][TimeIx,:].squeeze(), dtype=float)
+    OutletVel = np.asarray(NcFile.variables['outlet_vel'][TimeIx,:].squeeze(), dtype=float)
+    
+    OutletEndX = np.asarray(NcFile.variables['outlet_end_x'][TimeIx,:].squeeze(), dtype=float)
+    OutletEndWidth = np.asarray(NcFile.variables['outlet_end_width'][TimeIx].squeeze(), dtype=float)
+    OutletEndElev = np.asarray(NcFile.variables['outlet_end_z'][TimeIx].squeeze(), dtype=float)
+    OutletEndVel = np.asarray(NcFile.variables['outlet_end_vel'][TimeIx].squeeze(), dtype=float)
+    OutletEndWL = np.asarray(NcFile.variables['outlet_end_wl'][TimeIx].squeeze(), dtype=float)
+    DummyXsDep = np.asarray(NcFile.variables['dummy_xs_dep'][TimeIx].squeeze(), dtype=float)
+    DummyXsVel = np.asarray(NcFile.variables['dummy_xs_vel'][TimeIx].squeeze(), dtype=float)
     Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
     
     WavePower=None
@@ -478,9 +478,9 @@ def readTimestep(NcFile, TimeIx):
     LST = NcFile.variables['lst'][TimeIx,:] / 3600
     CST = NcFile.variables['cst'][TimeIx,:] / 3600
     
-    RiverElev = NcFile.variables['river_bed_z'][TimeIx,:].squeeze()
-    RiverWL  = NcFile.variables['river_wl'][TimeIx,:].squeeze()
-    RiverVel  = NcFile.variables['river_vel'][TimeIx,:].squeeze()
+    RiverElev = np.asarray(NcFile.variables['river_bed_z'][TimeIx,:].squeeze(), dtype=float)
+    RiverWL  = np.asarray(NcFile.variables['river_wl'][TimeIx,:].squeeze(), dtype=float)
+    RiverVel  = np.asarray(NcFile.variables['river_vel'][TimeIx,:].squeeze(), dtype=float)
     
     # Calculate OutletChanIx
     if Closed:
-- 
2.43.0


From bb98ec01e43ca216dc2904e864c700d1ce6611f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 13/44] fix: close the hotstart file after reading it

---
 hapuamod/loadmod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 72bbc7a..80ddf8b 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -322,6 +322,7 @@ def loadModel(ModelConfigFile):
         
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
+        NcFile.close()
         assert np.isclose(ShoreX[1] - ShoreX[0], Dx), 'Dx specified in model config file must match hotstart file'
         
     elif Config['SpatialInputs']['Shoreline'] is None:
-- 
2.43.0


From 2c36a2dcdc2607b81aec298788472f9e1a5c9074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 14/44] fix: record a breached outlet as open so that a
 hotstart continues it

---
 hapuamod/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 161f669..18125c5 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -201,14 +201,15 @@ def main(ModelConfigFile, Overwrite=False):
                              LST, CST_tot, OverwashProp,
                              RiverElev, ChanDep[ChanFlag==0], ChanVel[ChanFlag==0], Bedload[ChanFlag[:-1]==0],
                              OutletEndX, OutletEndElev, OutletEndWidth, 
-                             OutletEndDep, OutletEndVel, OutletEndBedload, Closed)
+                             OutletEndDep, OutletEndVel, OutletEndBedload, 
+                             Closed and not Breach)
             OutTime += OutputOpts['OutInt']
         
         if MorTime >= TsOutTime:
             out.writeTsOut(OutputOpts['TsOutFile'], MorTime, 
                            SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, 
                            np.nanmean(LagoonWL), ChanDep[-1]*ChanVel[-1]*ChanWidth[-1], 
-                           Bedload[0], OutletEndX, Closed, MorDt)
+                           Bedload[0], OutletEndX, Closed and not Breach, MorDt)
             TsOutTime += OutputOpts['TsOutInt']
         
         # updates to user
-- 
2.43.0


From 00c4f28bd067cfa1086f12fb87f1e099a48bcebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 15/44] fix: allow first order shot noise and fractional days
 between events

---
 hapuamod/synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 848b7db..6b9144e 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -92,7 +92,9 @@ def shotNoise(StartDate, EndDate, OutputInt,
     r = random.Random(RandomSeed)
     
     # Calculation additional (derived) input parameters
-    EventRate = 1/MeanTimeBetweenEvents.days
+    if DecayRate2 is None:
+        DecayRate2 = DecayRate1
+    EventRate = pd.Timedelta(days=1)/MeanTimeBetweenEvents
     PropRate2 = 1-PropRate1
     Rate1Vals = [MeanEventIncrease * (PropRate1 / DecayRate1) * EventRate]
     Rate2Vals = [MeanEventIncrease * (PropRate2 / DecayRate2) * EventRate]
-- 
2.43.0


From af4cb06e1e3460b954211194b0cde43e8de332a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 16/44] fix: generate synthetic boundary conditions without
 gaps up to EndTime

---
 hapuamod/synth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 6b9144e..907c755 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -111,7 +111,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     OutputTs = EventList.copy()
     
     LastEventTime = StartDate
-    while LastEventTime < EndDate:
+    while LastEventTime < EndDate + RisingLimbTime + 2*OutputInt:
         # Get the (random) parameters of the next event
         GapLength = pd.Timedelta(days = -math.log(r.random()) / EventRate)
         EventSize = -MeanEventIncrease * math.log(1 - r.random())
@@ -158,8 +158,8 @@ def shotNoise(StartDate, EndDate, OutputInt,
         # EventList = EventList.append(pd.Series([EventSize], index = pd.DatetimeIndex([LastEventTime])))
     
     # Resample the output timeseries and clip
-    OutputTs = OutputTs.resample(OutputInt).mean()
-    OutputTs = OutputTs.loc[:EndDate]    
+    OutputTs = OutputTs.resample(OutputInt).mean().interpolate()
+    OutputTs = OutputTs[OutputTs.index < EndDate + OutputInt]
     
     return OutputTs
 
@@ -197,7 +197,7 @@ def harmonicTide(StartDate, EndDate, OutputInt, MeanSeaLevel, TidalRange):
     """
     TidePeriod = (12*60 + 25.2) * 60 # in seconds
     
-    OutputTimes = pd.date_range(start=StartDate, end=EndDate, freq=OutputInt)
+    OutputTimes = pd.date_range(start=StartDate, end=EndDate + OutputInt, freq=OutputInt)
     OutputVals = (MeanSeaLevel + (TidalRange / 2) * 
                   np.sin(((OutputTimes - StartDate).total_seconds() / TidePeriod) * 2*np.pi))
     
-- 
2.43.0


From f2721e0485d02d31fc05dc0128ff6786875fe20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:01 +0000
Subject: [PATCH 17/44] fix: no longshore transport where waves are directed
 offshore

---
 hapuamod/coast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index 2da6eab..ec72221 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -75,7 +75,7 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
     BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
     
-    LST = - PhysicalPars['K2coef'] * WavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
+    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
     return LST
 
-- 
2.43.0


From 429db7c2c6ad61a761ca555db94dfb1cca789c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 18/44] fix: drive seepage through a closed barrier from sea
 level, not lagoon level

---
 hapuamod/riv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index d2caafd..663c9ae 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -153,7 +153,10 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     # Pre-compute some variables required for the start of the first timestep of the loop
     A = h*B                                # area of flow at each XS [m^2]
     Sf = V*np.abs(V) * (n**2) / (h**(4/3)) # friction slope at each XS [m/m]
-    DsWl = z[-1] + h[-1]
+    if Closed:
+        DsWl = DsWl_Ts[0] # water level at d/s end of channel is lagoon not sea
+    else:
+        DsWl = z[-1] + h[-1]
     
     # Main timestepping loop
     for StepNo in range(Q_Ts.shape[0]):
-- 
2.43.0


From 47f749a337992a7468bdaeabe2ad618646ccf050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 19/44] fix: do not fail or breach where an open lagoon spills
 further away than its outlet

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 20d4723..5adc038 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -627,7 +627,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 PossBreachTsects.append(TsectIx)
         PossBreachTsects = np.array(PossBreachTsects)
         
-        if PossBreachTsects.size == 0 and not Closed:
+        if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
             # is closer to where river enters lagoon than existing outlet
             CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
-- 
2.43.0


From 2951894bbeb67af47043b2dcc8e745c1b424b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 20/44] fix: decide which side of the shoreline the land is on
 from the river location

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 80ddf8b..d498fc8 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -439,7 +439,7 @@ def loadModel(ModelConfigFile):
                       (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
                      (Baseline[0] + 1/Baseline[0]))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
-        if ((InflowCoord[0] * Baseline[0] + Baseline[1])>0):
+        if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
             ShoreNormDir = math.atan2(Baseline[0],-1)
         else:
-- 
2.43.0


From cf03a9f5da2e2bdc2af6ad7c47335e82a97fb764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 21/44] fix: steady solution falls back to critical depth where
 there is no sub-critical one

---
 hapuamod/riv.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 663c9ae..9ca85b6 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -44,8 +44,12 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
         # h[i] + Beta*(Q^2/(2*g*B[i]^2))*h^(-2) - (Dx*Q^2*n^2/(2*B[i]^2))*h^(-10/3) - Energy[i+1]+z[i]-(Dx/2)*Sf[i+1] = 0
         # h[i] + A*h[i]^(-2) - B*h[i]^(-10/3) + C = 0
         
+        # lowest possible depth for sub-critical flow (allowing for momentum coefficient)
+        MinDep = CritDep[XS] * max(Beta, 1.0)**(1/3)
+        
         # initial estimate
-        ChanDep[XS] = (ChanDep[XS+1] + ChanElev[XS+1]) - ChanElev[XS] + S_f[XS+1]*ChanDx[XS] 
+        ChanDep[XS] = max((ChanDep[XS+1] + ChanElev[XS+1]) - ChanElev[XS] + S_f[XS+1]*ChanDx[XS],
+                          MinDep)
         
         # iterate solution for h
         Acoef = Beta * (Qin**2 / (2*Grav*ChanWidth[XS]**2))
@@ -54,16 +58,17 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
         DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
         CheckCount = 0
         while np.abs(DepErr) > Tol:
+            if ChanDep[XS] <= MinDep and DepErr > 0:
+                # No sub-critical solution exists
+                ChanDep[XS] = CritDep[XS]
+                logging.warning('Steady state solution results in critical depth at XS%i' % XS)
+                break
             Gradient = 1 - 2*Acoef*ChanDep[XS]**(-3) + (10/3)*Bcoef*ChanDep[XS]**(-13/3)
-            ChanDep[XS] -= DepErr / Gradient
+            ChanDep[XS] = max(ChanDep[XS] - DepErr / Gradient, MinDep)
             DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
             CheckCount += 1
             assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'
         
-        # Check for supercritical
-        if ChanDep[XS] < CritDep[XS]:
-            ChanDep[XS] = CritDep[XS]
-            logging.warning('Steady state solution results in critical depth at XS%i' % XS)
         ChanVel[XS] = Qin / (ChanWidth[XS] * ChanDep[XS])
         Energy[XS] = ChanElev[XS] + ChanDep[XS] + Beta * ChanVel[XS]**2 / (2*Grav)
         S_f[XS] = ChanVel[XS]**2 * Roughness**2 / ChanDep[XS]**(4/3)
-- 
2.43.0


From 83b037e838cd47ee6f015843e0437bbf784f328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 22/44] fix: big oblique waves breaking seaward of
 WaveDataDepth no longer give NaN transport

---
 hapuamod/coast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index ec72221..db72e33 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -73,7 +73,8 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     C_h = ((PhysicalPars['Gravity'] * WavePeriod / (2.0 * np.pi)) * 
            np.tanh(2.0 * np.pi * PhysicalPars['WaveDataDepth'] / Wlen_h))
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
-    BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
+    # (limited to +/-90 degrees as waves can break seaward of WaveDataDepth i.e. C_b > C_h)
+    BreakerAngle = np.arcsin(np.clip(np.sin(LocalEDir_h) * (C_b / C_h), -1.0, 1.0))
     
     LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
-- 
2.43.0


From dd29f8e530eb604694ab166002d7f95860340c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 23/44] fix: count all of the offline lagoon at the closed end
 of the channel

---
 hapuamod/riv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 9ca85b6..c6ae4b7 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -140,13 +140,16 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
-    dx2[0] = dx[0]
+    dx2[0] = dx[0]/2
     dx2[1:-1] = (dx[:-1]+dx[1:])/2
-    dx2[-1] = dx[-1]
+    dx2[-1] = dx[-1]/2
     Be = B + LagArea/dx2
     
     # Calculate ratio of length over which seepage occurs, to length of reach, for each reach
+    # (nodes at the ends of the channel only belong to a single reach)
     SeepLen = (LagLen[:-1]+LagLen[1:]) / (2*dx)
+    SeepLen[0] += LagLen[0] / (2*dx[0])
+    SeepLen[-1] += LagLen[-1] / (2*dx[-1])
     
     # Pre compute some constant values which get used a lot 
     # (to save having to calculate them in the loop)
-- 
2.43.0


From 58e2004dc1fd8715e430a43e56b506b06c12ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:37 +0000
Subject: [PATCH 24/44] fix: truncate a right to left outlet at its most
 upstream collision with the sea

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 5adc038..252a892 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -415,7 +415,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                        ShoreX <= OutletEndX[1]))[0]
             else:
                 # Outlet angles from R to L
-                OutletEndX[1] = ShoreX[TruncationIx[-1]] + Dx/2 
+                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx/2 
                 OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                  ShoreX <= OutletEndX[0]))[0])
     
-- 
2.43.0


From 0bbbc69552cf4879ea45ba69098713efe48abe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:37 +0000
Subject: [PATCH 25/44] fix: recorded wave directions are in radians

---
 hapuamod/out.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 88ca446..6029280 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -138,7 +138,7 @@ def newOutFile(FileName, ModelName, StartTime,
     
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
+    WaveDirVar.units = 'radians'
     WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
     
     #%% create shore-transect data variables
@@ -576,7 +576,7 @@ def newTsOutFile(FileName, ModelName, StartTime, Overwrite=False):
     # wave direction boundary condition
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
+    WaveDirVar.units = 'radians'
     WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
     
     #%% create other timeseries variables
-- 
2.43.0


From 6a2e69090020a7c8736b63750d9d43db23ba3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:53 +0000
Subject: [PATCH 26/44] fix: refuse input timeseries with gaps or out of order
 times before overwriting results

---
 hapuamod/loadmod.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d498fc8..ed338f1 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -646,6 +646,12 @@ def loadModel(ModelConfigFile):
                          ActualHotStartTime.strftime("%b %d %Y %H:%M:%S"))
             TimePars['StartTime'] = ActualHotStartTime
     
+    #%% Check time-series inputs are in time order
+    for (TsName, Ts) in [('RiverFlow', FlowTs), ('WaveConditions', WaveTs), ('SeaLevel', SeaLevelTs)]:
+        assert Ts.index.is_monotonic_increasing and Ts.index.is_unique, \
+            '%s timeseries %s contains repeated or out of order times' \
+            % (TsName, Config['BoundaryConditions'][TsName])
+    
     #%% Trim time-series inputs to model time
     assert (FlowTs.index[0] <= TimePars['StartTime'] 
             and FlowTs.index[-1] >= TimePars['EndTime']), \
@@ -674,6 +680,13 @@ def loadModel(ModelConfigFile):
     KeepTimes[1:] = SeaLevelTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
     SeaLevelTs = SeaLevelTs[KeepTimes]
     
+    # Check there are no gaps in the time-series inputs
+    WaveCols = ['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore']
+    for (TsName, Ts) in [('RiverFlow', FlowTs), ('WaveConditions', WaveTs[WaveCols]), ('SeaLevel', SeaLevelTs)]:
+        assert not np.any(np.isnan(Ts.values)), \
+            '%s timeseries %s contains missing values' \
+            % (TsName, Config['BoundaryConditions'][TsName])
+    
     #%% Read output options
     if Config['OutputOptions']['OutFile'] is None:
         OutFile = os.path.splitext(ConfigFileName)[0] + '_outputs.nc'
-- 
2.43.0


From e5e861a9c46ae92c03380f841d2ba3cb882a27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:02 +0000
Subject: [PATCH 27/44] fix: write the bedload transport out of the outlet end
 to the results

---
 hapuamod/core.py | 2 +-
 hapuamod/out.py  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 18125c5..1f856e3 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -70,7 +70,7 @@ def main(ModelConfigFile, Overwrite=False):
                      np.zeros(ShoreX.size-1), np.zeros(ShoreX.size), np.zeros(ShoreX.size), 
                      RiverElev, ChanDep[ChanFlag==0], ChanVel[ChanFlag==0], np.zeros(RiverElev.size),
                      OutletEndX, OutletEndElev, OutletEndWidth, 
-                     OutletEndDep, OutletEndVel, np.zeros(2), Closed)
+                     OutletEndDep, OutletEndVel, 0.0, Closed)
     
     out.newTsOutFile(OutputOpts['TsOutFile'], ModelName, 
                      TimePars['StartTime'], Overwrite)
diff --git a/hapuamod/out.py b/hapuamod/out.py
index 6029280..ff6a8db 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -403,6 +403,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
     NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
     NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
+    NcFile.variables['outlet_end_bedload'][TimeIx] = OutletEndBedload
     NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
     NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-- 
2.43.0


From 8813e2c93f400917c3f84d5ba3fc442011e14cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 28/44] fix: no inner barrier crest is left where a channel has
 merged into the lagoon

---
 hapuamod/mor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 252a892..e4749a0 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -459,6 +459,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreY[LagoonIntersect, 1] = np.nan
         ShoreY[LagoonIntersect, 2] = np.nan
         ShoreZ[LagoonIntersect, 1] = np.nan
+        ShoreZ[LagoonIntersect, 2] = np.nan
+        OutletPresent[LagoonIntersect] = False
     
     #%% ID locations where existing or relic outlet channel is connected to lagoon
     # Also update WaterLevel variable to include outlet channel water level 
-- 
2.43.0


From e69ad09f139ed20278c2ebcfd0f64b9d4932592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:38 +0000
Subject: [PATCH 29/44] fix: truncate the outlet channel past every transect
 the lagoon has reached

---
 hapuamod/mor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index e4749a0..68d7228 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -356,10 +356,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Move the ustream end of the outlet channel
             if OutletEndX[0] < OutletEndX[1]:
                 # Outlet angles from L to R
-                OutletEndX[0] = ShoreX[TruncationIx[0] + 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] + 1]
             else:
                 # Outlet angles from R to L
-                OutletEndX[0] = ShoreX[TruncationIx[0] - 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] - 1]
             
             # Recompute OutletChanIx
             if OutletEndX[0] < OutletEndX[1]:
@@ -374,19 +374,19 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             
             # Check if truncation is a collision between outlet channel and cliff
             # i.e. where there is no lagoon. If so then extend lagoon.
-            if ShoreY[TruncationIx[0], 2] <= ShoreY[TruncationIx[0], 4]:    
-                if ShoreX[TruncationIx[0]] > 0:
+            if ShoreY[TruncationIx[-1], 2] <= ShoreY[TruncationIx[-1], 4]:    
+                if ShoreX[TruncationIx[-1]] > 0:
                     # Extend right end of lagoon
                     logging.info('Extending R end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][-1]
-                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[0] + 1)
+                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[-1] + 1)
                 else:
                     # Extend left end of lagoon
                     logging.info('Extending L end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][0]
-                    LagExtension = np.arange(TruncationIx[0], CurLagEndIx)
+                    LagExtension = np.arange(TruncationIx[-1], CurLagEndIx)
             else:
                 Extend = False
             
-- 
2.43.0


From 98977f59bfea5a0984cfa50145c0c9ccac5dec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 30/44] fix: live plots of a closed outlet no longer end the
 run

---
 hapuamod/core.py      |  3 ++-
 hapuamod/visualise.py | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 1f856e3..d129650 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -94,7 +94,8 @@ def main(ModelConfigFile, Overwrite=False):
                                        PhysicalPars['SpitWidth'], ShoreZ=ShoreZ, 
                                        WavePower=0, EDir_h=0, 
                                        LST=np.zeros(ShoreX.size-1),
-                                       CST=np.zeros(ShoreX.size))
+                                       CST=np.zeros(ShoreX.size),
+                                       Closed=Closed)
         
     #%% Main timestepping loop
     MorTime = TimePars['StartTime']
diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 49ea3e8..7e15fa3 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -67,7 +67,8 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
               RiverWidth, SpitWidth,
               ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
               WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None):
+              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None, 
+              Closed=False):
     """ Map the current model state in model coordinates
     
         Parameters:
@@ -87,6 +88,8 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
             LstScaling (optional, default = 0.0001)
             QuiverWidth (optional, default = 0.002)
             AreaOfInterest (optional)
+            PlotTime (optional)
+            Closed (optional, default = False)
             
         Returns:
             ModelFig (dict): handles for the various parts of the plot. Used as
@@ -174,8 +177,9 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
     
     # Update plot with correct data
     updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
-                    OutletChanIx, ShoreZ=ShoreZ, WavePower=WavePower, 
-                    EDir_h=EDir_h, LST=LST, CST=CST, PlotTime=PlotTime)
+                    OutletChanIx, Closed=Closed, ShoreZ=ShoreZ, 
+                    WavePower=WavePower, EDir_h=EDir_h, LST=LST, CST=CST, 
+                    PlotTime=PlotTime)
     
     return ModelFig
 
@@ -241,14 +245,14 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
     
     if Closed:
         # Outlet plotting position
-        OutletX = np.nan
-        OutletY = np.nan
+        OutletX = [np.nan]
+        OutletY = [np.nan]
         
         # Shoreline
         ShoreLineX = ShoreX
         ShoreLineY = ShoreY[:,0]
-        ShoreDotsX = np.nan
-        ShoreDotsY = np.nan
+        ShoreDotsX = [np.nan]
+        ShoreDotsY = [np.nan]
         
         # BarrierBackshore
         LagoonLineX = ShoreX
-- 
2.43.0


From 3600b467c4c3d6eeffc77bc9121028989a4fd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 31/44] fix: extending the simulated period leaves the
 synthetic flow generated so far unchanged

---
 hapuamod/synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 907c755..8fce117 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -110,8 +110,10 @@ def shotNoise(StartDate, EndDate, OutputInt,
     EventList = pd.Series([MeanVal], index=pd.DatetimeIndex([StartDate]))
     OutputTs = EventList.copy()
     
+    # Note: Generation continues for 2 rising limbs beyond the end so that the 
+    # part which is kept does not depend on the events yet to be generated
     LastEventTime = StartDate
-    while LastEventTime < EndDate + RisingLimbTime + 2*OutputInt:
+    while LastEventTime < EndDate + 2*RisingLimbTime + 2*OutputInt:
         # Get the (random) parameters of the next event
         GapLength = pd.Timedelta(days = -math.log(r.random()) / EventRate)
         EventSize = -MeanEventIncrease * math.log(1 - r.random())
-- 
2.43.0


From cee130ecb30073824cb2ff7fcdb9fc9ddff6607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 32/44] fix: refuse timesteps and simulation periods which can
 not be simulated

---
 hapuamod/loadmod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index ed338f1..380ac35 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -262,6 +262,10 @@ def loadModel(ModelConfigFile):
                 'MorDtMax': pd.Timedelta(seconds=Config['Time']['MorDtMax'])}
     # Note: If hotstart 'ContinueSimulation' Flag is set then StartTime will be overwritten later
     # TODO: check mortime is a multiple of hydtime (or replace with morscaling?)
+    assert TimePars['EndTime'] >= TimePars['StartTime'], 'EndTime must not be before StartTime'
+    assert TimePars['HydDt'] > pd.Timedelta(0), 'HydDt must be greater than 0'
+    assert pd.Timedelta(0) < TimePars['MorDtMin'] <= TimePars['MorDtMax'], \
+        'MorDtMin must be greater than 0 and no larger than MorDtMax'
     
     #%% Read physical parameters
     logging.info('Processing physical parameters')
-- 
2.43.0


From f511cae23414dc8ff444965b6bc8028aac9aef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 33/44] fix: refuse forcing with infinite values when loading
 it

---
 hapuamod/loadmod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 380ac35..e789c6e 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -687,8 +687,8 @@ def loadModel(ModelConfigFile):
     # Check there are no gaps in the time-series inputs
     WaveCols = ['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore']
     for (TsName, Ts) in [('RiverFlow', FlowTs), ('WaveConditions', WaveTs[WaveCols]), ('SeaLevel', SeaLevelTs)]:
-        assert not np.any(np.isnan(Ts.values)), \
-            '%s timeseries %s contains missing values' \
+        assert np.all(np.isfinite(Ts.values)), \
+            '%s timeseries %s contains missing or infinite values' \
             % (TsName, Config['BoundaryConditions'][TsName])
     
     #%% Read output options
-- 
2.43.0


From 689eb093e3764ec28ef44671c108c8ed647bf7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 34/44] fix: refuse to start from an incomplete record

---
 hapuamod/loadmod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index e789c6e..53e145d 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -317,6 +317,12 @@ def loadModel(ModelConfigFile):
                      (DatetimeOfInterest.strftime("%b %d %Y %H:%M:%S"), 
                       ActualHotStartTime.strftime("%b %d %Y %H:%M:%S")))
         
+        # Check the record is complete (it may not be if the disk filled up or the model was stopped while writing it)
+        for (VarName, NcVar) in NcFile.variables.items():
+            Values = NcVar[TimeIx] if NcVar.dimensions[:1] == ('time',) else NcVar[:]
+            assert not (np.ma.is_masked(Values) or (VarName == 'outlet_closed' and Values not in (0, 1))), \
+                'Hotstart file does not contain a complete record at the hotstart time (missing %s)' % VarName
+        
         (SeaLevel, RivFlow, Hs_offshore, EDir_h, 
          ShoreX, ShoreY, ShoreZ, LagoonWL, LagoonVel, OutletWL, 
          OutletVel, OutletEndX, OutletEndWidth, OutletEndElev, OutletEndVel, 
-- 
2.43.0


From be305c43bcd37329a15e1f2d88c9059413bfd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 35/44] fix: interpolate wave directions the short way round

Directions either side of directly offshore were interpolated through the directly onshore direction
---
 hapuamod/core.py    | 5 +++--
 hapuamod/geom.py    | 7 +++++++
 hapuamod/loadmod.py | 2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d129650..e65bf8e 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -16,6 +16,7 @@ from . import coast
 from . import mor
 from . import visualise
 from . import out
+from . import geom
 
 def main(ModelConfigFile, Overwrite=False):
     """ Main hapuamod run script
@@ -36,7 +37,7 @@ def main(ModelConfigFile, Overwrite=False):
     RivFlow = interpolate_at(FlowTs, pd.DatetimeIndex([TimePars['StartTime']])).values
     SeaLevel = interpolate_at(SeaLevelTs, pd.DatetimeIndex([TimePars['StartTime']])).values
     WavesAtT = interpolate_at(WaveTs, pd.DatetimeIndex([TimePars['StartTime']]))
-    EDir_h = WavesAtT.EDir_h[0]
+    EDir_h = geom.wrapAngle(WavesAtT.EDir_h[0])
     Hs_offshore = WavesAtT.Hsig_Offshore[0]
     
     (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
@@ -158,7 +159,7 @@ def main(ModelConfigFile, Overwrite=False):
         
         # Calculate longshore transport
         WavesAtT = interpolate_at(WaveTs, pd.DatetimeIndex([MorTime]))
-        EDir_h = WavesAtT.EDir_h[0]
+        EDir_h = geom.wrapAngle(WavesAtT.EDir_h[0])
         WavePower = WavesAtT.WavePower[0]
         WavePeriod = WavesAtT.WavePeriod[0]
         Wlen_h = WavesAtT.Wlen_h[0]
diff --git a/hapuamod/geom.py b/hapuamod/geom.py
index 05d1cc3..341e64b 100644
--- a/hapuamod/geom.py
+++ b/hapuamod/geom.py
@@ -36,6 +36,13 @@ def real2mod(Xreal, Yreal, Origin, ShoreNormalDir):
     Ymod = Dist * np.sin(ShoreNormalDir - Dir + np.pi/2)
     return (Xmod, Ymod)
 
+def wrapAngle(Angle):
+    """ Expresses an angle (in radians) as the equivalent between -pi and pi
+    """
+    if -np.pi <= Angle <= np.pi:
+        return Angle
+    return (Angle + np.pi) % (2.0 * np.pi) - np.pi
+
 def intersectPolyline(Polyline, Xcoord):
     """ Identifies points where a polyline intersects a given x coordinate
     
diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 53e145d..6d089a3 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -630,6 +630,8 @@ def loadModel(ModelConfigFile):
     WaveTs.EDir_h = np.deg2rad(WaveTs.EDir_h) - (ShoreNormDir)
     # Make sure all wave angles are in the range -pi to +pi
     WaveTs.EDir_h = np.mod(WaveTs.EDir_h + np.pi, 2.0 * np.pi) - np.pi 
+    # Remove jumps of more than half a circle between successive directions so they can be interpolated the short way round
+    WaveTs.EDir_h = np.unwrap(WaveTs.EDir_h)
     
     # Sea level timeseries
     if Config['BoundaryConditions']['SeaLevel'].lower() == 'harmonic':
-- 
2.43.0


From 2835907d5ce7f6670a09e8ca63a79ca0ba069dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 36/44] fix: place an outlet that crosses no transect where it
 is mapped

The model transect was chosen from the cross-shore instead of the alongshore
position of the mapped outlet, and where the barrier is too narrow for the
outlet the lagoon edge was put inside the channel
---
 hapuamod/loadmod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 6d089a3..53ffbf3 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -531,10 +531,10 @@ def loadModel(ModelConfigFile):
         if np.all(np.logical_not(OutletMask)):
             # Handle special case that outlet is straight out and didn't intersect any transects
             if OutletToR:
-                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,1])//Dx)
+                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,0])//Dx)
                 OutletEndX[1] = OutletEndX[0] + Dx/2
             else:
-                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,1])//Dx) + 1)
+                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,0])//Dx) + 1)
                 OutletEndX[1] = OutletEndX[0] - Dx/2
             
             OutletMask = ShoreX == OutletEndX[0]
@@ -542,7 +542,7 @@ def loadModel(ModelConfigFile):
             ShoreY[OutletMask,1] = min(ShoreY[OutletMask,0] - PhysicalPars['SpitWidth'], 
                                        (ShoreY[OutletMask,0] + ShoreY[OutletMask,3])/2 + IniCond['OutletWidth']/2)
             ShoreY[OutletMask,2] = ShoreY[OutletMask,1] - IniCond['OutletWidth']
-            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] + 0.001, ShoreY[OutletMask,3])
+            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] - 0.001, ShoreY[OutletMask,3])
         else:
             if OutletToR:
                 # Outlet angles from L to R
-- 
2.43.0


From 8698075438005565b5bffa889e4728754d95a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 37/44] fix: fit the shoreline baseline independently of the
 direction the coast faces

Coasts running close to north-south got a wrong (or no) coordinate system and
coasts running exactly east-west could not be loaded
---
 hapuamod/loadmod.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 53ffbf3..6ae8a64 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -440,21 +440,21 @@ def loadModel(ModelConfigFile):
         #%% Develop model coordinate system
         logging.info('Creating shore-parallel model coordinate system')
         
-        # Fit a straight reference baseline through the specified shoreline points
-        Baseline = np.polyfit(IniShoreCoords[:,0], IniShoreCoords[:,1], 1)
+        # Fit a straight reference baseline through the specified shoreline points 
+        # (orthogonal fit, so that it does not depend on which way the coast faces)
+        Centre = np.mean(IniShoreCoords, axis=0)
+        (DX, DY) = (IniShoreCoords - Centre).T
+        BaseAngle = 0.5 * math.atan2(2 * np.sum(DX*DY), np.sum(DX**2) - np.sum(DY**2))
+        BaseDir = np.array([math.cos(BaseAngle), math.sin(BaseAngle)])
         
         # Defin origin point on baseline (in line with river inflow)
-        Origin = np.empty(2)
-        Origin[0] = ((InflowCoord[1] + 
-                      (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
-                     (Baseline[0] + 1/Baseline[0]))
-        Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
-        if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
-            # land is to north of baseline
-            ShoreNormDir = math.atan2(Baseline[0],-1)
+        Origin = Centre + np.dot(InflowCoord - Centre, BaseDir) * BaseDir
+        if np.dot(InflowCoord - Centre, [-BaseDir[1], BaseDir[0]]) > 0:
+            # land is to left of baseline direction
+            ShoreNormDir = math.atan2(BaseDir[1], -BaseDir[0])
         else:
-            # land is to south of baseline
-            ShoreNormDir = math.atan2(-Baseline[0],1)
+            # land is to right of baseline direction
+            ShoreNormDir = math.atan2(-BaseDir[1], BaseDir[0])
             
         #%% Initialise shoreline variables
 
-- 
2.43.0


From 78b246f908cd1bbc3536f320fa2869487a7ab7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 38/44] fix: reach to the outlet end a cell too long where it
 lies on a transect left of the river

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index c6ae4b7..08f111f 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -471,7 +471,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             ChanDx[-2] += OutletEndX[1] % Dx
         else:
             # Outlet from R to L
-            ChanDx[-2] += Dx - (OutletEndX[1] % Dx)
+            ChanDx[-2] += -OutletEndX[1] % Dx
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From 193ef4b41ed633957201fd24fc6f1e34519c37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:22 +0000
Subject: [PATCH 39/44] fix: transects miss X=0 for most spacings

---
 hapuamod/loadmod.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 6ae8a64..100ce2f 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -347,8 +347,9 @@ def loadModel(ModelConfigFile):
         ShoreNormDir = 0.0
         
         # Create key shore parrallel variables
-        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx)*Dx, 
-                           Config['SpatialInputs']['ShorelineLengthRight'] + Dx, Dx)
+        # (as multiples of Dx so that there is always one at exactly X=0)
+        ShoreX = Dx * np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx), 
+                                Config['SpatialInputs']['ShorelineLengthRight']/Dx + 1)
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
@@ -466,8 +467,9 @@ def loadModel(ModelConfigFile):
         assert np.all(np.diff(IniShoreCoords2[:,0]) > 0), 'Shoreline includes recurvature incompatible with model coordinate system'
         
         # Discretise shoreline at fixed intervals in model coordinate system
-        ShoreX = np.arange(math.ceil(IniShoreCoords2[0,0]/Dx)*Dx, 
-                           IniShoreCoords2[-1,0], Dx)
+        # (as multiples of Dx so that there is always one at exactly X=0)
+        ShoreX = Dx * np.arange(math.ceil(IniShoreCoords2[0,0]/Dx), 
+                                IniShoreCoords2[-1,0]/Dx)
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
-- 
2.43.0


From 171458d26a6abd52c98051a956f4d2d41ff35914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:14 +0000
Subject: [PATCH 40/44] fix: length of the last reach of the outlet does not
 depend on rounding when the outlet ends on a transect

---
 hapuamod/riv.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 08f111f..194b90b 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -466,12 +466,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     LagoonWidth[OnlineLagoon]])
     else: # open
         ChanDx = np.full(RiverElev.size + OnlineLagoon.size + OutletChanIx.size + 1, Dx)
-        if OutletEndX[0] < OutletEndX[1]:
-            # Outlet angles from L to R
-            ChanDx[-2] += OutletEndX[1] % Dx
-        else:
-            # Outlet from R to L
-            ChanDx[-2] += -OutletEndX[1] % Dx
+        # Distance from last transect in outlet channel to end of outlet
+        ChanDx[-2] += np.abs(OutletEndX[1] - ShoreX[OutletChanIx[-1]])
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From 1a638dbe18d7e37f3ac8886e821c7866e9472847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:14 +0000
Subject: [PATCH 41/44] fix: outlet bed aggraded to the top of the beach no
 longer divides by a bank of no height

---
 hapuamod/mor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 68d7228..b61c7c0 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -119,7 +119,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreYChangeRate[OutletChanIx,2] -= (BankEroRate[OutXS]/2) / ((ShoreZ[OutletChanIx,2] - ShoreZ[OutletChanIx,1]) * Dx)
         
         # Outlet end bank erosion
-        OutletEndWideningRate += BankEroRate[OutEndXS] / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth'])
+        OutletEndBankHeight = np.maximum(PhysicalPars['BeachTopElev'] - OutletEndElev, 0.01) # bed may aggrade to top of beach
+        OutletEndWideningRate += BankEroRate[OutEndXS] / (OutletEndBankHeight * PhysicalPars['SpitWidth'])
         if OutletEndX[0] < OutletEndX[1]:
             # Outlet angles from L to R
             OutletEndXMoveRate += (OutletEndWideningRate / 2) * PhysicalPars['OutletBankEroFac']
@@ -144,7 +145,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             ShoreYChangeRate[OutletRbShoreIx,0] -= (LST[OutletRbShoreIx-1]
                                                     / (ShorefaceHeight[OutletRbShoreIx] * Dx))
             WidthReductionRate = (LST[OutletRbShoreIx-1] 
-                                  / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
+                                  / (OutletEndBankHeight * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
             OutletEndXMoveRate += WidthReductionRate/2
         else:
@@ -152,7 +153,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
                                                       / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
-                                  / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
+                                  / (OutletEndBankHeight * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
             OutletEndXMoveRate -= WidthReductionRate/2
     
-- 
2.43.0


From 9241c7ffd89be6b3c32ce6a6fba8e95f27f400e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 42/44] fix: land hatching right of the river ends at the cliff

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 7e15fa3..b92d72b 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -227,7 +227,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                              np.flipud(RiverLbY),   # River LB
                              -5000.0, CliffToLY[0], # LH Edge of domain
                              np.nan,                # Break to separate L and R polygons
-                             CliffToRX[-1],-5000.0, # RH Edge of domain
+                             CliffToRY[-1],-5000.0, # RH Edge of domain
                              RiverRbY,              # River RB
                              CliffToRY])            # Cliff RHS
     
-- 
2.43.0


From 282446b07fc4b164316c1c5f30190c99b53b4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 43/44] fix: shape of the right bank of an outlet to the right
 does not bend the left bank

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index b92d72b..4071d62 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -348,7 +348,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                                    np.NaN, # Extra point
                                    np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])])
             OutletRbY[-2] = (OutletRbY[-1]-SpitWidth + OutletRbY[-3])/2
-            OutletLbY[-3] = np.min(OutletRbY[[-1,-3]])
+            OutletRbY[-3] = np.min(OutletRbY[[-1,-3]])
         else:
             # Outlet right bank angles R to L
             R_Ok = ShoreX[OutletChanIx] > OutletDsRbX
-- 
2.43.0


From 6121aca97d4ab0462415dc4bbd5f7bc262e2df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 44/44] fix: animate results that start with a closed outlet

---
 hapuamod/animate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/animate.py b/hapuamod/animate.py
index 14c784c..4123aa4 100644
--- a/hapuamod/animate.py
+++ b/hapuamod/animate.py
@@ -193,7 +193,8 @@ def main(ResultsFile, AnimationFile, StartTimestep=0, EndTimestep=None,
                                        OutletChanIx, RiverWidth, SpitWidth,
                                        ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
                                        WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest)
+                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest,
+                                       Closed=Closed)
         FigToAnimate = ModelFig['PlanFig']
         
         # Set up animation function
-- 
2.43.0

