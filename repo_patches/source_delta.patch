From ded081df3c0e1fa90609f48c6dae5bdaa9e429c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 01/41] fix: keep takeoff and incident angle sines within the
 domain of asin

---
 taupy/SeismicPhase.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be6d4d3..2021ce9 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1045,13 +1045,18 @@ class SeismicPhase(object):
                 # Fake negative velocity so angle is negative in case of
                 # upgoing ray.
                 takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
+            # The first ray parameter sample of a phase can be slightly larger
+            # than the slowness at the source, so keep the sine within its
+            # domain: such a ray leaves (or arrives) horizontally.
+            sinTakeoff = takeoffVelocity * arrivalRayParam / (
+                self.tMod.radiusOfEarth - self.sourceDepth)
             takeoffAngle = (180 / math.pi) * math.asin(
-                takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth -
-                                                     self.sourceDepth))
+                min(1.0, max(-1.0, sinTakeoff)))
             lastLeg = self.legs[-2][0]  # very last item is "END"
+            sinIncident = vMod.evaluateBelow(0, lastLeg) * arrivalRayParam / \
+                self.tMod.radiusOfEarth
             incidentAngle = (180 / math.pi) * math.asin(
-                vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
-                self.tMod.radiusOfEarth)
+                min(1.0, max(-1.0, sinIncident)))
         return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum,
                        name, puristName, sourceDepth, takeoffAngle,
                        incidentAngle)
-- 
2.43.0


From 5354f69b6a15ae3a6a319ce0b5759855755a3463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 02/41] fix: do not shift the layer index twice when inserting
 a ray parameter in fixOtherLayers

---
 taupy/SlownessModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..27ca86f 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1375,7 +1375,9 @@ class SlownessModel(object):
             # but must not break program flow. I.e. that's ok, no error
             # should be raised, the try clause can be seen like an if.
             pass
-        for otherLayerNum, sLayer in enumerate(out[:]):
+        otherLayerNum = 0
+        while otherLayerNum < len(out):
+            sLayer = out[otherLayerNum]
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 # Found a slowness layer with the other wave type that
                 # contains the new slowness sample.
@@ -1390,7 +1392,8 @@ class SlownessModel(object):
                 # Fix critical layers since we have added a slowness layer.
                 self.fixCriticalDepths(criticalDepths, otherLayerNum,
                                        not isPWave)
-                # Skip next layer as it was just added: achieved by slicing
-                # the list iterator.
+                # Skip next layer as it was just added.
+                otherLayerNum += 1
+            otherLayerNum += 1
 
         return out
-- 
2.43.0


From 11b8c7fd837b5fb3d32e5fcbd2a4848acd491ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 03/41] fix: give every depth corrected model its own
 noDisconDepths

---
 taupy/TauModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..e248326 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -325,7 +325,9 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        # Do not append in place: the list belongs to the class (or to the
+        # model that was split), not to the new model.
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
-- 
2.43.0


From 07f76a0f28b84da187602bb8867e312117aaa16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 04/41] fix: moving a slowness sample to the source depth works
 on a copy and keeps the wave types apart

---
 taupy/SlownessModel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 27ca86f..f8eb10f 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1288,7 +1288,7 @@ class SlownessModel(object):
             # Depth is already on a slowness layer boundary so no need to
             # split any slowness layers.
             return SplitLayerInfo(self, False, False, 0)
-        elif abs(sLayer.topDepth - depth) < 0.000001:
+        elif abs(sLayer.topDepth - depth) < 0.000001 and layerNum > 0:
             # Check for very thin layers, just move the layer to hit the
             # boundary.
             outLayers = deepcopy(self.PLayers) \
@@ -1299,11 +1299,12 @@ class SlownessModel(object):
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
-        elif abs(depth - sLayer.botDepth) < 0.000001:
+        elif abs(depth - sLayer.botDepth) < 0.000001 \
+                and layerNum < self.getNumLayers(isPWave) - 1:
             # As above.
             outLayers = deepcopy(self.PLayers) \
                 if isPWave else deepcopy(self.SLayers)
@@ -1313,9 +1314,9 @@ class SlownessModel(object):
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         else:
             # Must split properly.
-- 
2.43.0


From e66bd5db7e2189b43ed88dc47ebb32d3e9dc7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 05/41] fix: time and distance through a layer of constant
 slowness

---
 taupy/SlownessLayer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/taupy/SlownessLayer.py b/taupy/SlownessLayer.py
index f6ed845..ac37ab6 100644
--- a/taupy/SlownessLayer.py
+++ b/taupy/SlownessLayer.py
@@ -60,6 +60,17 @@ class SlownessLayer:
         # 1 micron). In that case also just return 0.
         if self.botDepth - self.topDepth < 0.000000001:
             return timedist
+        if self.topP == self.botP:
+            # Slowness does not change with depth, ie B = 0, so use the limit
+            # of the expressions below. A ray with this very slowness can't
+            # propagate in the layer.
+            if p != self.topP:
+                logRadii = math.log((radiusOfEarth - self.topDepth) /
+                                    (radiusOfEarth - self.botDepth))
+                sqrtTopMpp = math.sqrt(self.topP * self.topP - p * p)
+                timedist.distRadian = p * logRadii / sqrtTopMpp
+                timedist.time = self.topP * self.topP * logRadii / sqrtTopMpp
+            return timedist
         B = math.log(self.topP / self.botP) / math.log(
             (radiusOfEarth - self.topDepth) / (radiusOfEarth - self.botDepth))
         sqrtTopTopMpp = math.sqrt(self.topP * self.topP - p * p)
-- 
2.43.0


From d68aebf1e56076802a39b36489c7af35a8dbeaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 06/41] fix: Pn and Sn refract along the Moho with their own
 ray parameter, also in ray paths

---
 taupy/SeismicPhase.py | 7 ++++---
 taupy/tau.py          | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 2021ce9..42a8319 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -681,7 +681,8 @@ class SeismicPhase(object):
                                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
-            self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxRefraction * math.pi / 180 * self.minRayParam
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
@@ -957,9 +958,9 @@ class SeismicPhase(object):
                                    currArrival.dist - self.dist[0],
                                    self.tMod.cmbDepth)]
                 pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch - 1
+            elif(branchNum == self.tMod.mohoBranch
                  and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch - 1
+                 and self.branchSeq[i + 1] == self.tMod.mohoBranch
                  and ("Pn" in self.name or "Sn" in self.name)):
                 # Can't have both Pn and Sn in a wave, so one of these is 0.
                 numFound = max(self.name.count("Pn"), self.name.count("Sn"))
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..c383806 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -52,9 +52,9 @@ class TauPyModel(object):
         >>> from taupy import tau
         >>> i91 = tau.TauPyModel()
         >>> i91.get_travel_times(10, 20)[0].name
-        'Pn'
+        'P'
         >>> i91.get_travel_times(10, 20)[0].time
-        15.60164282924581
+        272.6679998052059
         >>> i91.get_travel_times(100, 50, phase_list = ["P", "S"],
         ...                 print_output=True)
 
-- 
2.43.0


From e67b43de0fa2ad6d28ff55981c084ffe47913648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 07/41] fix: split reflection and conversion depths such as
 ^410, vm and 660 off a phase name

---
 taupy/SeismicPhase.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 42a8319..e4fa4d2 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1090,6 +1090,13 @@ def closestBranchToDepth(tMod, depthString):
     return disconBranch
 
 
+def isDepthChar(char):
+    """
+    Tells if the given character (or empty string) can be part of a depth.
+    """
+    return char != "" and char in "0123456789."
+
+
 def legPuller(name):
     """
     Tokenizes a phase name into legs, ie PcS becomes 'P'+'c'+'S' while p^410P
@@ -1114,13 +1121,13 @@ def legPuller(name):
                                         "m", "c")):
                 legs.append(nchar)
                 offset += 1
-            elif nchar == "P" or "S":
+            elif nchar == "P" or nchar == "S":
                 # Now it gets complicated, first see if the next char is
                 # part of a different leg or if it's the end.
                 if (offset + 1 == len(name) or
                         any(name[offset + 1] == c for c in
                             ("P", "S", "K", "m", "c", "^", "v"))
-                    or name[offset + 1].isdigit()):
+                    or isDepthChar(name[offset + 1])):
                     legs.append(nchar)
                     offset += 1
                 elif name[offset + 1] == "p" or name[offset + 1] == "s":
@@ -1142,24 +1149,24 @@ def legPuller(name):
             elif nchar == "^" or nchar == "v":
                 # Top side or bottom side reflections, check for standard
                 # boundaries and then check for numerical ones.
-                if any(name[offset + 1] == c for c in ("m", "c", "i")):
+                if any(name[offset + 1:offset + 2] == c
+                       for c in ("m", "c", "i")):
                     legs.append(name[offset:offset + 2])
                     offset += 2
-                elif name[offset + 1].isdigit() or name[offset + 1] == ".":
+                elif isDepthChar(name[offset + 1:offset + 2]):
                     numString = name[offset]
                     offset += 1
-                    while name[offset + 1].isdigit() or name[
-                                offset + 1] == ".":
+                    while isDepthChar(name[offset:offset + 1]):
                         numString += name[offset]
                         offset += 1
                     legs.append(numString)
                 else:
                     raise TauModelError("Invalid phase name {nchar} in {name}."
                                         .format(**locals()))
-            elif nchar.isdigit() or nchar == ".":
+            elif isDepthChar(nchar):
                 numString = name[offset]
                 offset += 1
-                while name[offset + 1].isdigit() or name[offset + 1] == ".":
+                while isDepthChar(name[offset:offset + 1]):
                     numString += name[offset]
                     offset += 1
                 legs.append(numString)
-- 
2.43.0


From de045b967bfc71165a6fd07543b43525020108fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 08/41] fix: use the whole depth of reflection legs and accept
 them as legs of a phase

---
 taupy/SeismicPhase.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index e4fa4d2..0784e16 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -126,7 +126,7 @@ class SeismicPhase(object):
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
-                disconBranch = closestBranchToDepth(tMod, currLeg[1])
+                disconBranch = closestBranchToDepth(tMod, currLeg[1:])
                 legDepth = tMod.tauBranches[0][disconBranch].topDepth
                 puristName += currLeg[0]
                 puristName += str(legDepth)
@@ -251,7 +251,7 @@ class SeismicPhase(object):
                         "p and s must always be upgoing and cannot come "
                         "immediately before a top-sided reflection.")
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch >= disconBranch:
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -290,7 +290,7 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
@@ -301,7 +301,7 @@ class SeismicPhase(object):
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -316,7 +316,7 @@ class SeismicPhase(object):
                     elif ((prevLeg.startswith("v") and
                                    disconBranch < closestBranchToDepth(tMod,
                                                                        prevLeg[
-                                                                           1])
+                                                                           1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -488,8 +488,8 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
             elif (any(currLeg == p for p in ("m", "c", "i"))
-                  or currLeg.startswith == "^"
-                  or currLeg.startswith == "v" or isLegDepth):
+                  or currLeg.startswith("^")
+                  or currLeg.startswith("v") or isLegDepth):
                 pass
             else:
                 raise TauModelError(
@@ -1081,7 +1081,10 @@ def closestBranchToDepth(tMod, depthString):
     # Non-standard boundary, given by a number: must look for it.
     disconBranch = -1
     disconMax = 1e300
-    disconDepth = float(depthString)
+    try:
+        disconDepth = float(depthString)
+    except ValueError:
+        raise TauModelError("Not a depth: {}".format(depthString))
     for i, tBranch in enumerate(tMod.tauBranches[0]):
         if (abs(disconDepth - tBranch.topDepth) < disconMax and not
         any(ndc == tBranch.topDepth for ndc in tMod.noDisconDepths)):
-- 
2.43.0


From f3a3f979083fd7fb0af86a7c3b3742dcd5d53a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 09/41] fix: an upgoing leg cannot convert at a discontinuity
 below the source

---
 taupy/SeismicPhase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 0784e16..04e51b6 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -272,6 +272,11 @@ class SeismicPhase(object):
                                          and not nextLeg == "K" else self.REFLECTTOP))
                 elif isNextLegDepth:
                     disconBranch = closestBranchToDepth(tMod, nextLeg)
+                    if disconBranch > self.currBranch:
+                        # The discontinuity is below, but we have an upgoing
+                        # ray, so this is an illegal ray for this source depth.
+                        self.maxRayParam = -1
+                        return
                     self.addToBranch(tMod, self.currBranch, disconBranch,
                                      isPWave, self.TRANSUP)
                 else:
-- 
2.43.0


From 4909c8a5ff87694c923c20f00f709fd996e9a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 10/41] fix: surface wave phases have a ray parameter, pierce
 points and a path

---
 taupy/SeismicPhase.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 04e51b6..be060cb 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -152,6 +152,16 @@ class SeismicPhase(object):
         # Deal with surface wave velocities first, since they are a special
         # case.
         if len(self.legs) == 2 and currLeg.endswith("kmps"):
+            try:
+                velocity = float(currLeg[:-4])
+            except ValueError:
+                velocity = -1
+            if not 0 < velocity < float("inf"):
+                raise TauModelError("Not a surface wave velocity: {}".format(
+                    self.name))
+            # All surface wave energy travels with the same ray parameter.
+            self.minRayParam = tMod.radiusOfEarth / velocity
+            self.maxRayParam = self.minRayParam
             return
         # Make a check for J legs if the model doesn't allow J:
         if "J" in self.name and not tMod.sMod.allowInnerCoreS:
@@ -614,7 +624,6 @@ class SeismicPhase(object):
             self.rayParams[1] = self.rayParams[0]
             self.minDistance = 0
             self.maxDistance = 2 * math.pi
-            self.downGoing.append(True)
             return
         # Find the ray parameter index that corresponds to the minRayParam
         # and maxRayParam.
-- 
2.43.0


From 7d9c1d20fbe37317ccfdde862dad354964b25250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 11/41] fix: Arrival.getPierce and getPath compute missing
 pierce points and paths

---
 taupy/Arrival.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..38407ae 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,7 +53,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.phase.calcPierceFromArrival(self)
         return self.pierce
 
     def getPath(self):
@@ -61,7 +61,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.phase.calcPathFromArrival(self)
         return self.path
 
     def getModuloDistDeg(self):
-- 
2.43.0


From 9dbbb609f0be3bd423ba4819a5ee6e52b9b4ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 12/41] fix: pierce point and ray path interfaces use the
 loaded model

---
 taupy/TauP_Path.py   | 16 +++++-----------
 taupy/TauP_Pierce.py | 14 ++++----------
 taupy/tau.py         | 10 ++++------
 3 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..dbe8e4c 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,19 +15,13 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
-        phaseList = phaseList if phaseList is not None else []
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        # This type conversion is important (somehow).
+        TauP_Pierce.__init__(self, taupy_model, phaseList, float(depth),
+                             degrees, coordinate_list)
         self.maxPathTime = 1e300
         self.maxPathInc = 1
-        self.phaseList = phaseList
-        self.modelName = modelName
-        # This type conversion is important (somehow).
-        self.depth = float(depth)
-        self.degrees = degrees
 
     def calculate(self, degrees):
         """
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..a5714e5 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,21 +14,15 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees,
+                           coordinate_list)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
-        self.phaseList = phaseList
-        self.modelName = modelName
-        self.depth = depth
-        self.degrees = degrees
 
     def depthCorrect(self, depth):
         """
diff --git a/taupy/tau.py b/taupy/tau.py
index c383806..dacd92b 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From 1a6b987ada337a36f46babacd747deb0e2a84480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 13/41] fix: great circle distance of identical and antipodal
 points

---
 taupy/TauP_Time.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..778b7a8 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -345,9 +345,11 @@ def great_circle_dist(stn, event):
     lonA = stn[1]
     latB = event[0]
     lonB = event[1]
-    return rtod * math.acos(math.sin(latA * dtor) * math.sin(latB * dtor)
-                            + math.cos(latA * dtor) * math.cos(latB * dtor)
-                            * math.cos((lonB - lonA) * dtor))
+    cosDist = (math.sin(latA * dtor) * math.sin(latB * dtor)
+               + math.cos(latA * dtor) * math.cos(latB * dtor)
+               * math.cos((lonB - lonA) * dtor))
+    # Rounding can take this slightly out of the domain of acos.
+    return rtod * math.acos(min(1.0, max(-1.0, cosDist)))
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From d3adf1f9a94dfe87469f97aedc3d9b7ea05600a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 14/41] fix: the centre of the Earth lies in the deepest branch

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index e248326..45a89e7 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -342,7 +342,7 @@ class TauModel(object):
                 return i
         # Check to see if depth is centre of the Earth.
         if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
-            return len(self.tauBranches) - 1
+            return len(self.tauBranches[0]) - 1
         else:
             raise TauModelError("No TauBranch contains this depth.")
 
-- 
2.43.0


From 6de2b3f7708db018b43d10c6f08c9f96f62a3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 15/41] fix: recalcPhases keeps no phases that are no longer
 asked for

---
 taupy/TauP_Time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 778b7a8..96098c0 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -116,7 +116,7 @@ class TauP_Time(object):
                 except TauModelError:
                     print("Error with this phase, skipping it: " +
                           str(tempPhaseName))
-            self.phases = newPhases
+        self.phases = newPhases
 
     def calculate(self, degrees):
         """Calls the actual calculations of the arrival times."""
-- 
2.43.0


From 51cbac7cd0a5ca83bb0d49dae89e5dc490d33f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 16/41] fix: TauP_Create writes models to the working
 directory, too

---
 taupy/TauP_Create.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..d611c37 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,10 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            output_dir = os.path.dirname(self.output_filename)
+            # The directory is empty for a file in the working directory.
+            if output_dir and not os.path.exists(output_dir):
+                os.makedirs(output_dir)
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
-- 
2.43.0


From b0949065858161966548208a3f25c9ef1b81a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 17/41] fix: load an explicitly given model file even if it is
 named like an internal model

---
 taupy/TauModelLoader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/TauModelLoader.py b/taupy/TauModelLoader.py
index d6dcffe..bc489ec 100644
--- a/taupy/TauModelLoader.py
+++ b/taupy/TauModelLoader.py
@@ -15,9 +15,10 @@ def load(model_name):
     Load a pickled model. It first tries to load a TauPy internal model with
     the given name. Otherwise it is treated as a filename.
     """
-    #
     filename = _get_model_filename(model_name)
-    if not os.path.exists(filename):
+    # A file somewhere else is not an internal model, whatever it is called.
+    if not os.path.exists(filename) or (os.path.dirname(model_name) and
+                                        os.path.isfile(model_name)):
         filename = model_name
 
     with open(filename, 'rb') as f:
-- 
2.43.0


From 02af12f09ec73529dcafe4993c910aa680cf8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 18/41] fix: keep new slowness samples inside the layer they
 split

---
 taupy/SlownessModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index f8eb10f..98dd5f4 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -776,6 +776,10 @@ class SlownessModel(object):
                         (sLayer.botDepth - sLayer.topDepth)
                     botDepth = self.interpolate(p, topVelocity,
                                                 sLayer.topDepth, slope)
+                    # Rounding can take this slightly out of the layer if p
+                    # is very close to one of its slownesses.
+                    botDepth = min(max(botDepth, sLayer.topDepth),
+                                   sLayer.botDepth)
                 botLayer = SlownessLayer(p, botDepth, sLayer.botP,
                                          sLayer.botDepth)
                 topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p,
-- 
2.43.0


From defb251cd6ef7534eb87d04c7a87478d1a599dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 19/41] fix: distance check recomputes the previous ray where
 it is not known

---
 taupy/SlownessModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 98dd5f4..b8ecc62 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -953,6 +953,9 @@ class SlownessModel(object):
                             self.addSlowness((sLayer.topP + sLayer.botP) / 2,
                                              self.SWAVE)
                             currTD = prevPrevTD
+                            # It is not known after a high slowness zone or a
+                            # previous step back.
+                            isCurrOK = currTD is not None
                             isPrevOK = False
                             if j > 0:
                                 # Back up one step unless we are at the
-- 
2.43.0


From c558769ddbff6137ca2c66128c19152bd4b379b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 20/41] fix: no diffraction along the core below a high
 slowness zone of the diffracted wave type

---
 taupy/SeismicPhase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be060cb..6db25f1 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -677,9 +677,10 @@ class SeismicPhase(object):
                     self.dist[i - self.maxRayParamIndex] += tbs * taubs.dist[i]
                     self.time[i - self.maxRayParamIndex] += tbs * taubs.time[i]
         if "Sdiff" in self.name or "Pdiff" in self.name:
-            if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10,
-                                             self.minRayParam,
-                                             self.name[0] == "P"):
+            isPWave = "Pdiff" in self.name
+            if self.minRayParam < tMod.sMod.getSlownessLayer(
+                    tMod.sMod.layerNumberAbove(tMod.cmbDepth, isPWave),
+                    isPWave).botP:
                 # No diffraction if there is a high slowness zone at the CMB.
                 self.minRayParam = -1
                 self.maxRayParam = -1
-- 
2.43.0


From 92fbcf0befdadb83d646bf9988adab1b0a8d271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 21/41] fix: shadow zones of phases with P and S legs, and of
 phases that end at the top of a high slowness zone

---
 taupy/SeismicPhase.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 6db25f1..9ce90a6 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -711,9 +711,8 @@ class SeismicPhase(object):
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
-            indexOffset = 0
             for hszi in hsz:
-                if self.maxRayParam > hszi.rayParam > self.minRayParam:
+                if self.maxRayParam > hszi.rayParam >= self.minRayParam:
                     # There is a high slowness zone within our ray parameter
                     # range so might need to add a shadow zone. Need to
                     # check if the current wave type is part of the phase at
@@ -733,6 +732,8 @@ class SeismicPhase(object):
                             break
                     if foundOverlap:
                         hszIndex = self.rayParams.index(hszi.rayParam)
+                        # Shadow zones may have been inserted before this one.
+                        rayParamIndex = tMod.rayParams.index(hszi.rayParam)
                         newdist = deepcopy(self.dist[:hszIndex])
                         newtime = deepcopy(self.time[:hszIndex])
                         newrayParams = deepcopy(self.rayParams[:hszIndex])
@@ -744,24 +745,23 @@ class SeismicPhase(object):
                                                         timesBranches[1],
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
-                            if tb != 0 and taub.topDepth < hszi.topDepth:
+                            # Only the legs of this wave type turn at the top
+                            # of the zone.
+                            if tb != 0 and (not isPwave or
+                                            taub.topDepth < hszi.topDepth):
                                 newdist[hszIndex] += tb * taub.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                                    rayParamIndex]
                                 newtime[hszIndex] += tb * taub.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                            if tbs != 0 and taubs.topDepth < hszi.topDepth:
+                                    rayParamIndex]
+                            if tbs != 0 and (isPwave or
+                                             taubs.topDepth < hszi.topDepth):
                                 newdist[hszIndex] += tbs * taubs.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                                    rayParamIndex]
                                 newtime[hszIndex] += tbs * taubs.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                                    rayParamIndex]
                         newdist += self.dist[hszIndex:]
                         newtime += self.time[hszIndex:]
                         newrayParams += self.rayParams[hszIndex:]
-                        indexOffset += 1
                         self.dist = newdist
                         self.time = newtime
                         self.rayParams = newrayParams
-- 
2.43.0


From 90ce54adf4d8209ff25a7b6564b225b1deb977d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 22/41] fix: no head wave along a Moho that is the top of a
 high slowness zone

---
 taupy/SeismicPhase.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 9ce90a6..6936cc2 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -440,10 +440,14 @@ class SeismicPhase(object):
                         # In the diffracted case we trick addtoBranch into
                         # thinking we are turning below the Moho, but then
                         # make the minRayParam equal to maxRayParam,
-                        # which is the head wave ray.
+                        # which is the head wave ray. There is none if the
+                        # Moho is the top of a high slowness zone.
+                        mohoLayer = tMod.sMod.getSlownessLayer(
+                            tMod.sMod.layerNumberBelow(tMod.mohoDepth,
+                                                       isPWave), isPWave)
                         if (self.maxRayParam >= tMod.getTauBranch(
                                 tMod.mohoBranch, isPWave).maxRayParam
-                                >= self.minRayParam):
+                                >= max(self.minRayParam, mohoLayer.topP)):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
-- 
2.43.0


From 77cea1957e82d4cec897e129e6924a1e5f7fcaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 23/41] fix: pierce points of rays that turn just above a high
 slowness zone

---
 taupy/SeismicPhase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 6936cc2..0d69baf 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -904,7 +904,13 @@ class SeismicPhase(object):
                                                          tauBranch.topDepth,
                                                          tauBranch.botDepth,
                                                          isPWave)
-            if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
+            if distRayParam > tauBranch.maxRayParam == \
+                    self.tMod.rayParams[rayNum + 1]:
+                # The ray turns above this branch, at the top of a high
+                # slowness zone, so do not interpolate towards the ray that
+                # just gets through the zone.
+                distA, timeA, distB, timeB = 0, 0, 0, 0
+            elif any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
                 # Head waves and diffracted waves are a special case.
                 distA = tauBranch.dist[rayNum]
                 timeA = tauBranch.time[rayNum]
-- 
2.43.0


From 40fd059a0dc5f50f3447b943076c63b25f31aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 24/41] fix: sample the S discontinuity below a fluid if the
 solid is faster (creating such models never ended)

---
 taupy/SlownessModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8ecc62..659155c 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -766,7 +766,11 @@ class SlownessModel(object):
                         and sLayer.botDepth > self.vMod.iocbDepth:
                     break
                 elif topVelocity == 0:
-                    continue
+                    # If the solid below a fluid is faster, though, S waves
+                    # turn at the boundary between the two.
+                    if botVelocity == 0 or sLayer.topP <= sLayer.botP \
+                            or sLayer.topDepth != sLayer.botDepth:
+                        continue
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 botDepth = sLayer.botDepth
                 if sLayer.botDepth != sLayer.topDepth:
-- 
2.43.0


From 53ef4e7a97921d6e7f4338637ed2e68e78014f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 25/41] fix: S waves in the inner core are P waves if it has
 none, also when looking for critical points

---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 659155c..1d0cc0e 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -215,7 +215,7 @@ class SlownessModel(object):
                 fluidZone = DepthRange(topDepth=currVLayer.topDepth)
             # If already in fluid zone, check if exited (java line 909)
             if inFluidZone is True and currVLayer.topSVelocity != 0:
-                if prevVLayer.botDepth > self.vMod.iocbDepth:
+                if prevVLayer.botDepth >= self.vMod.iocbDepth:
                     belowOuterCore = True
                 inFluidZone = False
                 fluidZone.botDepth = prevVLayer.botDepth
-- 
2.43.0


From ce34e2a63bf1fb4158f18375576189a9a79ee148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:45 +0000
Subject: [PATCH 26/41] fix: keep the power law of steep slowness layers from
 overflowing

---
 taupy/SlownessLayer.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/taupy/SlownessLayer.py b/taupy/SlownessLayer.py
index ac37ab6..f6352b4 100644
--- a/taupy/SlownessLayer.py
+++ b/taupy/SlownessLayer.py
@@ -105,17 +105,10 @@ class SlownessLayer:
                 B = np.divide(math.log(self.topP / self.botP),
                               math.log((radiusOfEarth - self.topDepth)
                               / (radiusOfEarth - self.botDepth)))
-                # This is a cludge but it's needed to mimic the Java behaviour.
-                try:
-                    denom = math.pow((radiusOfEarth - self.topDepth), B)
-                except OverflowError:
-                    denom = np.inf
-                A = np.divide(self.topP, denom)
-                with np.errstate(divide='ignore', invalid='ignore'):
-                    tempDepth = radiusOfEarth - math.exp(
-                        1.0 / B * math.log(np.divide(rayParam, A)))
-                # or equivalent (maybe better stability?):
-                # tempDepth = radiusOfEarth - math.pow(rayParam/A, 1/B)
+                # Take the radius relative to that of the top: the power of
+                # the radius itself overflows for a steep gradient.
+                tempDepth = radiusOfEarth - (radiusOfEarth - self.topDepth) \
+                    * math.exp(1.0 / B * math.log(rayParam / self.topP))
                 # Check if slightly outside layer due to rounding or
                 # numerical instability:
                 if self.topDepth > tempDepth > self.topDepth - 0.000001:
@@ -186,17 +179,14 @@ class SlownessLayer:
             B = np.divide(math.log(np.divide(topP, botP)),
                           math.log(np.divide((radiusOfEarth - topDepth),
                                              (radiusOfEarth - botDepth))))
-            ADenominator = pow((radiusOfEarth - topDepth), B)
-            A = topP / ADenominator
-            answer = A * pow((radiusOfEarth - depth), B)
+            # Relative to the top radius, see bullenDepthFor.
+            answer = topP * pow((radiusOfEarth - depth) /
+                                (radiusOfEarth - topDepth), B)
             if answer < 0 or math.isnan(answer) or math.isinf(answer):
                 # numerical instability in power law calculation???
                 # try a linear interpolation if the layer is small ( <2 km)
-                # or if denominator of A is infinity as we probably overflowed
-                # the double in that case.
-                if botDepth - topDepth < 2 \
-                        or math.isinf(ADenominator) \
-                        or botP == 0:
+                # or reaches the centre.
+                if botDepth - topDepth < 2 or botP == 0:
                     linear = (botP - topP) / (botDepth - topDepth) * \
                              (depth - topDepth) + topP
                     if linear < 0 \
-- 
2.43.0


From 466c4e77564957a8826d1369c0afd8f933de6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 27/41] fix: keep the branch boundary when a source lies within
 a millimetre of a gradient change

---
 taupy/SlownessModel.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 1d0cc0e..7ff2c18 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1067,8 +1067,9 @@ class SlownessModel(object):
                                      "layerNum = "+str(layerNum))
         # Check to see if this layer has zero thickness, if so then it is
         # from a critically reflected slowness sample. That means just
-        # return 0 for time and distance increments.
-        if sphericalLayer.topDepth == sphericalLayer.botDepth:
+        # return 0 for time and distance increments. Neither does a layer of
+        # less than a micron, where rounding is all there would be.
+        if sphericalLayer.botDepth - sphericalLayer.topDepth < 0.000000001:
             timeDist.time = 0
             timeDist.distRadian = 0
             return timeDist
@@ -1311,6 +1312,8 @@ class SlownessModel(object):
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
             out = deepcopy(self)
+            self.keepCriticalDepth(out, outLayers, layerNum, sLayer.botDepth,
+                                   depth, isPWave)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
@@ -1326,6 +1329,8 @@ class SlownessModel(object):
                                                     sLayer.botP,
                                                     sLayer.botDepth)
             out = deepcopy(self)
+            self.keepCriticalDepth(out, outLayers, layerNum + 1,
+                                   sLayer.topDepth, depth, isPWave)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
@@ -1359,6 +1364,33 @@ class SlownessModel(object):
             out.SLayers = outSLayers
             return SplitLayerInfo(out, True, False, p)
 
+    def keepCriticalDepth(self, out, outLayers, layerNum, oldDepth, newDepth,
+                          isPWave):
+        """
+        Branches begin and end at critical depths, so there must still be a
+        layer boundary at oldDepth if the boundary above layer layerNum was
+        moved from there to newDepth: inserts a thin layer of constant slowness
+        between the two if there is none.
+        """
+        if oldDepth not in [cd.depth for cd in self.criticalDepths] \
+                or any(sLayer.botDepth == oldDepth for sLayer in outLayers):
+            return
+        above = newDepth > oldDepth
+        p = outLayers[layerNum].topP
+        thinLayer = SlownessLayer(p, min(oldDepth, newDepth),
+                                  p, max(oldDepth, newDepth))
+        if above:
+            sLayer = outLayers[layerNum - 1]
+            outLayers[layerNum - 1] = SlownessLayer(
+                sLayer.topP, sLayer.topDepth, sLayer.botP, oldDepth)
+        else:
+            sLayer = outLayers[layerNum]
+            outLayers[layerNum] = SlownessLayer(
+                sLayer.topP, oldDepth, sLayer.botP, sLayer.botDepth)
+        outLayers.insert(layerNum, thinLayer)
+        out.criticalDepths = deepcopy(self.criticalDepths)
+        self.fixCriticalDepths(out.criticalDepths, layerNum, isPWave)
+
     @staticmethod
     def fixCriticalDepths(criticalDepths, layerNum, isPWave):
         for i, cd in enumerate(criticalDepths):
-- 
2.43.0


From cbadd20af52959d835ea965669bbb36ac368a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 28/41] fix: an arrival at exactly the distance of the only ray
 of a phase divided by zero

---
 taupy/SeismicPhase.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 0d69baf..32a2cc9 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -870,7 +870,8 @@ class SeismicPhase(object):
         rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         distA = self.dist[currArrival.rayParamIndex]
         distB = self.dist[currArrival.rayParamIndex + 1]
-        distRatio = (currArrival.dist - distA) / (distB - distA)
+        distRatio = (currArrival.dist - distA) / (distB - distA) \
+            if distA != distB else 0.0
         distRayParam = distRatio * (rayParamB - rayParamA) + rayParamA
         # First pierce point is always 0 distance at the source depth.
         pierce = [TimeDist(distRayParam, 0, 0, self.tMod.sourceDepth)]
@@ -1051,15 +1052,20 @@ class SeismicPhase(object):
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-        arrivalTime = ((searchDist - self.dist[rayNum]) /
-                       (self.dist[rayNum + 1] - self.dist[rayNum])
-                       * (self.time[rayNum + 1] - self.time[rayNum]) +
-                       self.time[rayNum])
-        arrivalRayParam = ((searchDist - self.dist[rayNum + 1]) *
-                           (self.rayParams[rayNum] -
-                            self.rayParams[rayNum + 1])
-                           / (self.dist[rayNum] - self.dist[rayNum + 1]) +
-                           self.rayParams[rayNum + 1])
+        if self.dist[rayNum] == self.dist[rayNum + 1]:
+            # Nothing to interpolate, e.g. if there is but one ray.
+            arrivalTime = self.time[rayNum]
+            arrivalRayParam = self.rayParams[rayNum]
+        else:
+            arrivalTime = ((searchDist - self.dist[rayNum]) /
+                           (self.dist[rayNum + 1] - self.dist[rayNum])
+                           * (self.time[rayNum + 1] - self.time[rayNum]) +
+                           self.time[rayNum])
+            arrivalRayParam = ((searchDist - self.dist[rayNum + 1]) *
+                               (self.rayParams[rayNum] -
+                                self.rayParams[rayNum + 1])
+                               / (self.dist[rayNum] - self.dist[rayNum + 1]) +
+                               self.rayParams[rayNum + 1])
         if name.endswith("kmps"):
             takeoffAngle = 0
             incidentAngle = 0
-- 
2.43.0


From 48bb1fb019d6c5a0c9eb330994dfdb470e88a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 29/41] fix: refuse phase names that do not end with a leg to
 the surface (asking for them raised)

---
 taupy/SeismicPhase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 32a2cc9..acb582d 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -167,6 +167,10 @@ class SeismicPhase(object):
         if "J" in self.name and not tMod.sMod.allowInnerCoreS:
             raise TauModelError("J phases are not created for this model: {}"
                                 .format(self.name))
+        # The last leg (before "END") must be one that gets to the surface.
+        if len(self.legs) > 1 and self.legs[-2][0] not in "PSps":
+            raise TauModelError("Phase does not end at the surface: {}"
+                                .format(self.name))
         # Set currWave to be the wave type for this leg, P or S
         if currLeg == "p" or currLeg.startswith("P") or currLeg == "K" \
                 or currLeg == "k":
-- 
2.43.0


From edd1302b4f777f87db4b9ea5a2c3300de3649e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 30/41] fix: pierce points of an arrival at the last sample of
 a phase used the next ray

---
 taupy/SeismicPhase.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index acb582d..8a27fa2 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -857,21 +857,22 @@ class SeismicPhase(object):
         arrival is the same as the input argument but now has the pierce
         points filled in.
         """
+        # Here we use ray parameter and dist info stored within the
+        # SeismicPhase so we can use currArrival.rayParamIndex, which
+        # may not correspond to rayNum (for tMod.rayParams).
+        rayParamA = self.rayParams[currArrival.rayParamIndex]
+        rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         # Find the ray parameter index that corresponds to the arrival ray
         # parameter in the TauModel, ie it is between rayNum and rayNum+1,
         # We know that it must be <tMod.rayParams.length-1 since the last
-        # ray parameter sample is 0 in a spherical model.
+        # ray parameter sample is 0 in a spherical model. An arrival exactly
+        # at rayParamB still is interpolated from rayParamA.
         rayNum = 0
         for i, rp in enumerate(self.tMod.rayParams[:-1]):
-            if rp >= currArrival.rayParam:
+            if rp >= rayParamA:
                 rayNum = i
             else:
                 break
-        # Here we use ray parameter and dist info stored within the
-        # SeismicPhase so we can use currArrival.rayParamIndex, which
-        # may not correspond to rayNum (for tMod.rayParams).
-        rayParamA = self.rayParams[currArrival.rayParamIndex]
-        rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         distA = self.dist[currArrival.rayParamIndex]
         distB = self.dist[currArrival.rayParamIndex + 1]
         distRatio = (currArrival.dist - distA) / (distB - distA) \
-- 
2.43.0


From 3abfc9794358af631f01ab246822885baad4caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 31/41] fix: pierce points of a ray grazing a low velocity zone
 ended at its top

---
 taupy/SeismicPhase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 8a27fa2..5ff60e4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -896,7 +896,7 @@ class SeismicPhase(object):
             tauBranch = self.tMod.getTauBranch(branchNum, isPWave)
             if distRayParam > tauBranch.maxRayParam:
                 turnDepth = tauBranch.topDepth
-            elif distRayParam <= tauBranch.minRayParam:
+            elif distRayParam <= tauBranch.minTurnRayParam:
                 turnDepth = tauBranch.botDepth
             else:
                 if (isPWave or self.tMod.sMod.depthInFluid((
-- 
2.43.0


From 1630e6dab2c306906871710e7b75dda638fb5129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 32/41] fix: head and diffracted waves ran along their boundary
 at every visit to it

---
 taupy/SeismicPhase.py | 64 ++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 5ff60e4..388cc2d 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -90,6 +90,9 @@ class SeismicPhase(object):
         # Note that this depends upon both the earth model and the source
         # depth.
         self.branchSeq = []
+        # Positions in branchSeq after which the ray runs along the Moho (head
+        # wave) or the core mantle boundary (diffracted wave).
+        self.headOrDiffSeq = []
         # Temporary end action so we know what we did at the end of the last
         # section of the branch sequence.
         # Used in addToBranch() and  parseName().
@@ -417,6 +420,7 @@ class SeismicPhase(object):
                                          tMod.cmbBranch - 1, isPWave,
                                          self.TURN)
                         self.maxRayParam = self.minRayParam
+                        self.headOrDiffSeq.append(len(self.branchSeq) - 1)
                         if nextLeg == "END" or nextLeg.startswith("P") \
                                 or nextLeg.startswith("S"):
                             self.addToBranch(tMod, self.currBranch, 0, isPWave,
@@ -455,6 +459,7 @@ class SeismicPhase(object):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
+                            self.headOrDiffSeq.append(len(self.branchSeq) - 1)
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TRANSUP)
@@ -880,15 +885,17 @@ class SeismicPhase(object):
         distRayParam = distRatio * (rayParamB - rayParamA) + rayParamA
         # First pierce point is always 0 distance at the source depth.
         pierce = [TimeDist(distRayParam, 0, 0, self.tMod.sourceDepth)]
+        # Pierce points at which a head or diffracted wave begins.
+        headPoints = []
         branchDist = 0
         branchTime = 0
         # Loop from 0 but already done 0 [I just copy the comments, sorry!],
         # so the pierce point when the ray leaves branch i is stored in i + 1.
         # Use linear interpolation between rays that we know.
         assert len(self.branchSeq) == len(self.waveType) == len(self.downGoing)
-        for branchNum, isPWave, isDownGoing in zip(self.branchSeq,
-                                                   self.waveType,
-                                                   self.downGoing):
+        for i, branchNum, isPWave, isDownGoing in zip(count(), self.branchSeq,
+                                                      self.waveType,
+                                                      self.downGoing):
             # Save the turning depths for the ray parameter for both P and
             # S waves. This way we get the depth correct for any rays that
             # turn within a layer. We have to do this on a per branch basis
@@ -938,8 +945,11 @@ class SeismicPhase(object):
             if abs(prevBranchTime - branchTime) > 1e-10:
                 pierce.append(TimeDist(distRayParam, branchTime, branchDist,
                                        branchDepth))
+            if i in self.headOrDiffSeq:
+                headPoints.append(len(pierce) - 1)
         if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
-            pierce = self.handleHeadOrDiffractedWave(currArrival, pierce)
+            pierce = self.handleHeadOrDiffractedWave(currArrival, pierce,
+                                                     headPoints)
         elif "kmps" in self.name:
             pierce.append(TimeDist(distRayParam, currArrival.time,
                                    currArrival.dist, 0))
@@ -978,28 +988,16 @@ class SeismicPhase(object):
                     if ttd.getDistDeg() < 0:
                         raise RuntimeError("Path is backtracking, "
                                            "this is impossible.")
-            # Special case for head and diffracted waves:
-            if(branchNum == self.tMod.cmbBranch - 1
-               and i < len(self.branchSeq) - 1
-               and self.branchSeq[i + 1] == self.tMod.cmbBranch - 1
-               and ("Pdiff" in self.name or "Sdiff" in self.name)):
-                diffTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])
-                                   * currArrival.rayParam,
-                                   currArrival.dist - self.dist[0],
-                                   self.tMod.cmbDepth)]
-                pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch
-                 and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch
-                 and ("Pn" in self.name or "Sn" in self.name)):
-                # Can't have both Pn and Sn in a wave, so one of these is 0.
-                numFound = max(self.name.count("Pn"), self.name.count("Sn"))
+            # Special case for head and diffracted waves, which share the
+            # distance along their boundary equally:
+            if i in self.headOrDiffSeq:
+                numFound = len(self.headOrDiffSeq)
                 headTD = [TimeDist(currArrival.rayParam,
                                    (currArrival.dist - self.dist[0]) / numFound
                                    * currArrival.rayParam,
                                    (currArrival.dist - self.dist[0])/numFound,
-                                   self.tMod.mohoDepth)]
+                                   self.tMod.cmbDepth if "diff" in self.name
+                                   else self.tMod.mohoDepth)]
                 pathList.append(headTD)
         if "kmps" in self.name:
             # kmps phases have no branches, so need to end them at the arrival
@@ -1018,37 +1016,23 @@ class SeismicPhase(object):
                 currArrival.path.append(deepcopy(cumulative))
         return currArrival
 
-    def handleHeadOrDiffractedWave(self, currArrival, orig):
+    def handleHeadOrDiffractedWave(self, currArrival, orig, headPoints):
         """
         Here we worry about the special case for head and diffracted
         waves. It is assumed that a phase can be a diffracted wave or a
         head wave, but not both. Nor can it be a head wave or diffracted
         wave for both P and S.
         """
-        for ps in ["Pn", "Sn", "Pdiff", "Sdiff"]:
-            if ps in self.name:
-                phaseSeg = ps
-                break
-        else:
-            raise TauModelError("No head/diff segment in" + str(self.name))
-        if phaseSeg in ["Pn", "Sn"]:
-            headDepth = self.tMod.mohoDepth
-        else:
-            headDepth = self.tMod.cmbDepth
-        numFound = self.name.count(phaseSeg)
+        numFound = len(self.headOrDiffSeq)
         refractDist = currArrival.dist - self.dist[0]
         refractTime = refractDist * currArrival.rayParam
         out = []
         j = 0
-        for td in orig:
-            # This is a little weird as we are not checking where we are in
-            # the phase name, but simply if the depth matches. This likely
-            # works in most cases, but may not for head/diffracted waves that
-            # undergo a phase change, if that type of phase can even exist.
+        for k, td in enumerate(orig):
             out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
                                 td.distRadian + j * refractDist / numFound,
                                 td.depth))
-            if td.depth == headDepth:
+            if k in headPoints:
                 j += 1
                 out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
                                     td.distRadian + j * refractDist / numFound,
-- 
2.43.0


From 5b9d72893485faf5c6fcb5eac89f6eadf032e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 33/41] fix: pierce point tools kept boundaries that were no
 longer asked for, and broke when one was refused

---
 taupy/TauP_Pierce.py | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index a5714e5..2e72673 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -23,6 +23,8 @@ class TauP_Pierce(TauP_Time):
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
+        # The addDepth that tModDepth was made for.
+        self.tModAddDepth = []
 
     def depthCorrect(self, depth):
         """
@@ -30,37 +32,24 @@ class TauP_Pierce(TauP_Time):
         :param depth:
         :return:
         """
-        tModOrig = self.tMod
-        mustRecalc = False
         # First check if tModDepth is correct as it is. Check to make sure
-        # source depth is the same, and then check to make sure each addDepth
-        # is in the model.
-        if self.tModDepth.sourceDepth == depth:
-            if self.addDepth:
-                branchDepths = self.tModDepth.getBranchDepths()
-                for addDepth in self.addDepth:
-                    for branchDepth in branchDepths:
-                        if addDepth == branchDepth:
-                            # Found it, so break and go to the next addDepth.
-                            break
-                        # Didn't find the depth as a branch, so must
-                        # recalculate.
-                        mustRecalc = True
-                    if mustRecalc:
-                        break
-        else:
-            # The depth isn't event the same, so must recalculate
-            mustRecalc = True
-        if not mustRecalc:
+        # source depth is the same, and then check to make sure that it was
+        # made for the same addDepth.
+        addDepths = list(self.addDepth) if self.addDepth is not None else []
+        if (self.tModDepth is not None and self.tModDepth.sourceDepth == depth
+                and self.tModAddDepth == addDepths):
             # Won't actually do anything much since tModDepth != None.
             TauP_Time.depthCorrect(self, depth)
         else:
+            tModOrig = self.tMod
             self.tModDepth = None
-            if self.addDepth is not None:
-                for addDepth in self.addDepth:
+            try:
+                for addDepth in addDepths:
                     self.tMod = self.tMod.splitBranch(addDepth)
-            TauP_Time.depthCorrect(self, depth)
-            self.tMod = tModOrig
+                TauP_Time.depthCorrect(self, depth)
+                self.tModAddDepth = addDepths
+            finally:
+                self.tMod = tModOrig
 
     def calculate(self, degrees):
         """
-- 
2.43.0


From c992a3033a989074ea9b1a4eafa1b3e49dbf6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 34/41] fix: new coordinates had no effect on a tool that had
 been run before

---
 taupy/TauP_Time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 96098c0..a600e6c 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -49,6 +49,8 @@ class TauP_Time(object):
         self.stationLon = coordinate_list[3]
         self.eventLat = coordinate_list[0]
         self.eventLon = coordinate_list[1]
+        # The distance that the coordinates gave in the last run, if any.
+        self.coordDegrees = None
         self.arrivals = []
         self.relativePhaseName = None
         self.relativeArrival = None
@@ -65,10 +67,14 @@ class TauP_Time(object):
                 self.eventLon)):
             # Enough information has been given on the command line, just do
             #  simple calculation.
-            if self.degrees is None:
+            if self.degrees is None or self.degrees == self.coordDegrees:
+                # No distance has been set since the last run, so take it
+                # from the coordinates, which may be new ones.
                 stn = (self.stationLat, self.stationLon)
                 event = (self.eventLat, self.eventLon)
-                self.degrees = great_circle_dist(stn, event)
+                if None not in stn + event:
+                    self.coordDegrees = great_circle_dist(stn, event)
+                    self.degrees = self.coordDegrees
             self.depthCorrect(self.depth)
             self.calculate(self.degrees)
             if printOutput:
-- 
2.43.0


From 78de210d2f0aada3fd7df94c5697a647d1cb4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 35/41] fix: a very large distance was never answered

---
 taupy/SeismicPhase.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 388cc2d..b332a74 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -786,10 +786,8 @@ class SeismicPhase(object):
         :return arrivals:
         """
         # Degrees must be positive and between 0 and 180
-        tempDeg = abs(degrees)
         # Don't just use modulo, as 180 would be equal to 0.
-        while tempDeg > 360:
-            tempDeg -= 360
+        tempDeg = math.fmod(abs(degrees), 360)
         if tempDeg > 180:
             tempDeg = 360 - tempDeg
         radDist = tempDeg * math.pi / 180
-- 
2.43.0


From 44f18cbbb728c9a1c0ced7a4b3c635eee88a2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 36/41] fix: surface waves so slow that they never arrive had
 infinite arrivals

---
 taupy/SeismicPhase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index b332a74..4b40f42 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -159,7 +159,9 @@ class SeismicPhase(object):
                 velocity = float(currLeg[:-4])
             except ValueError:
                 velocity = -1
-            if not 0 < velocity < float("inf"):
+            if not (0 < velocity < float("inf") and
+                    2 * math.pi * tMod.radiusOfEarth / velocity <
+                    float("inf")):
                 raise TauModelError("Not a surface wave velocity: {}".format(
                     self.name))
             # All surface wave energy travels with the same ray parameter.
-- 
2.43.0


From 2223a642aa610fcee0f3fda0321b447f0ceae425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 37/41] fix: phases going down as P or S from a source in the
 core left from the core mantle boundary

---
 taupy/SeismicPhase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4b40f42..3dc374e 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -194,6 +194,11 @@ class SeismicPhase(object):
         if currLeg.startswith("P") or currLeg.startswith("S") or \
                 (self.expert and any(currLeg.startswith(a)
                                      for a in ("K", "I"))):
+            # P and S legs are mantle legs: a ray that goes down from a
+            # source in the core cannot begin with one.
+            if currLeg[0] in "PS" and tMod.sourceDepth > tMod.cmbDepth:
+                self.maxRayParam, self.minRayParam = -1, -1
+                return
             # Downgoing from source.
             self.currBranch = tMod.sourceBranch
             # Treat initial downgoing as if it were an underside reflection.
-- 
2.43.0


From 5b7d8935f35d7c6510b762e12f9c953e8e1e84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 38/41] fix: ScP and PcS from a source on the core mantle
 boundary kept rays that cannot convert there

---
 taupy/SeismicPhase.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 3dc374e..394faa4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -265,8 +265,13 @@ class SeismicPhase(object):
                 # inner core to outer core type legs.
                 pass
             # Check to see if there has been a phase conversion.
-            if len(self.branchSeq) > 0 and isPWavePrev != isPWave:
-                self.phaseConversion(tMod, int(self.branchSeq[-1]),
+            if isPWavePrev != isPWave and (
+                    len(self.branchSeq) > 0 or prevLeg == "c"):
+                # No branch has been crossed before the reflection if the
+                # source lies on the core mantle boundary.
+                fromBranch = (self.branchSeq[-1] if len(self.branchSeq) > 0
+                              else self.currBranch)
+                self.phaseConversion(tMod, int(fromBranch),
                                      self.endAction, isPWavePrev)
             # Deal with p and s case first.
             if currLeg == "p" or currLeg == "s" or currLeg == "k":
-- 
2.43.0


From 82821da5db4c3d8ee7cf2b5f03d0071e3da1c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 39/41] fix: turning, reversal and underside points were told
 from the depth of the source only

---
 taupy/TauP_Pierce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 2e72673..dbe35b3 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -100,6 +100,7 @@ class TauP_Pierce(TauP_Time):
                           currArrival.pierce[j].depth,
                           currArrival.pierce[j].time))
                     # Optional (only if used in calc?) coords output to follow.
+                prevDepth = capd
 
     def getCommentLine(self, currArrival):
         outName = currArrival.name
-- 
2.43.0


From 43580f77a7efc356e11cc3b41d2097e51aaa1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 40/41] fix: find the turning depth between depths, not between
 layer numbers

A source depth and further depths given as whole numbers were taken for
layer numbers by findDepth, which tells the two by their type.
---
 taupy/SeismicPhase.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 394faa4..df481b4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -918,15 +918,13 @@ class SeismicPhase(object):
             else:
                 if (isPWave or self.tMod.sMod.depthInFluid((
                             tauBranch.topDepth + tauBranch.botDepth) / 2)):
-                    turnDepth = self.tMod.sMod.findDepth(distRayParam,
-                                                         tauBranch.topDepth,
-                                                         tauBranch.botDepth,
-                                                         True)
+                    turnDepth = self.tMod.sMod.findDepth_from_depths(
+                        distRayParam, tauBranch.topDepth, tauBranch.botDepth,
+                        True)
                 else:
-                    turnDepth = self.tMod.sMod.findDepth(distRayParam,
-                                                         tauBranch.topDepth,
-                                                         tauBranch.botDepth,
-                                                         isPWave)
+                    turnDepth = self.tMod.sMod.findDepth_from_depths(
+                        distRayParam, tauBranch.topDepth, tauBranch.botDepth,
+                        isPWave)
             if distRayParam > tauBranch.maxRayParam == \
                     self.tMod.rayParams[rayNum + 1]:
                 # The ray turns above this branch, at the top of a high
-- 
2.43.0


From 6703032ecd081c3a2039faf39607c6f9cef0006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:55 +0000
Subject: [PATCH 41/41] fix: models of another radius than that of the Earth

A velocity file may end at any depth, which then is the radius, but
slowness layers were always made with 6371 km, and so was the TauModel.
---
 taupy/SlownessModel.py | 24 ++++++++++++++++--------
 taupy/TauModel.py      |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 7ff2c18..b511cab 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -184,8 +184,10 @@ class SlownessModel(object):
             currVLayer.topSVelocity, currVLayer.topSVelocity,
             currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp,
             currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
-        currSLayer = create_from_vlayer(currVLayer, self.SWAVE)
-        currPLayer = create_from_vlayer(currVLayer, self.PWAVE)
+        currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                        self.radiusOfEarth)
+        currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                        self.radiusOfEarth)
         # We know that the top is always a critical slowness so add 0
         self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
         # Check to see if starting in fluid zone.
@@ -222,7 +224,8 @@ class SlownessModel(object):
                 self.fluidLayerDepths.append(fluidZone)
 
             currPLayer = create_from_vlayer(currVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             # If we are in a fluid zone ( S velocity = 0.0 ) or if we are below
             # the outer core and allowInnerCoreS=false then use the P velocity
             # structure to look for critical points.
@@ -231,7 +234,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(currVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
 
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
@@ -592,7 +596,8 @@ class SlownessModel(object):
                     prevVLayer.botDepth, prevVLayer.botPVelocity,
                     origVLayer.topPVelocity, topSVel, botSVel)
                 currPLayer = create_from_vlayer(currVLayer,
-                                                self.PWAVE)
+                                                self.PWAVE,
+                                                self.radiusOfEarth)
                 self.PLayers.append(currPLayer)
                 if (prevVLayer.botSVelocity == 0
                     and origVLayer.topSVelocity == 0) \
@@ -601,10 +606,12 @@ class SlownessModel(object):
                     currSLayer = currPLayer
                 else:
                     currSLayer = create_from_vlayer(currVLayer,
-                                                    self.SWAVE)
+                                                    self.SWAVE,
+                                                    self.radiusOfEarth)
                 self.SLayers.append(currSLayer)
             currPLayer = create_from_vlayer(origVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             self.PLayers.append(currPLayer)
             if self.depthInFluid(origVLayer.topDepth) or (
                     self.allowInnerCoreS is False
@@ -612,7 +619,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(origVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
             self.SLayers.append(currSLayer)
         # Make sure that all high slowness layers are sampled exactly
         # at their bottom
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 45a89e7..4e20983 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -33,7 +33,7 @@ class TauModel(object):
 
     def __init__(self, sMod, spherical=True, debug=False):
         self.debug = debug
-        self.radiusOfEarth = 6371.0
+        self.radiusOfEarth = sMod.radiusOfEarth
         # True if this is a spherical slowness model. False if flat.
         self.spherical = spherical
         # Ray parameters used to construct the tau branches. This may only be
-- 
2.43.0

