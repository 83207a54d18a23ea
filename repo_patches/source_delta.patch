From ae49e137ef4eaaef65888e894358ebca4b558e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 01/48] fix: cubic 1D LUT lookup falls back to linear instead
 of raising NameError

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 14cbbf7..5b666f9 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -511,7 +511,7 @@ class Array:
         dimensions = self._dimensions
 
         if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
-            return lookup1DLinear(position, channel)
+            return self.lookup1DLinear(position, channel)
 
         index = position*(dimensions[0]-1)
 
-- 
2.43.0


From 5710f174799ca262ee1015041e0cafb4b3d00d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 02/48] fix: nearest half-domain lookup raised NameError on an
 undefined flag

---
 python/aces/clf/Array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 5b666f9..30ed40d 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -351,10 +351,9 @@ class Array:
 
         # Input half-float values are treated as 16 bit unsigned integers
         # Those integers are the index into the LUT
-        if not interpolate:
-            index = halfToUInt16(position)
-            value = self.lookup1D(index, channel)
-            result = value
+        index = halfToUInt16(position)
+        value = self.lookup1D(index, channel)
+        result = value
 
         return result
 
-- 
2.43.0


From 095ead0f4d7e95bea16184f1c086592a4bfc68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 03/48] fix: index non-cubic 3D LUTs with the right strides

---
 python/aces/clf/Array.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 30ed40d..e6fda15 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -537,7 +537,7 @@ class Array:
         # Corner cases
         index3 = map(lambda a, b: max(0, min(a, b-1)), index3, dimensions)
 
-        index1 = (index3[0]*dimensions[0]*dimensions[1] + index3[1]*dimensions[1] + index3[2])*3 
+        index1 = ((index3[0]*dimensions[1] + index3[1])*dimensions[2] + index3[2])*3 
 
         #result = [values[index1], values[index1+1], values[index1+2]]
         result = values[index1:index1+3]
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..d562d93 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -226,7 +226,7 @@ def simple3DLUT(id,
                 samplez = float(z)/(resolution[2]-1)
 
                 # Red changes fastest
-                lutValueIndex = (((x*resolution[0] +y)*resolution[1] + z))*channels
+                lutValueIndex = ((x*resolution[1] + y)*resolution[2] + z)*channels
 
                 fvalue = f(samplex, sampley, samplez)
                 lutValues[lutValueIndex:lutValueIndex+channels] = fvalue
-- 
2.43.0


From ca51e93de7f59b30b05a357dff4f2c35cca0e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 04/48] fix: LUT3D.setArray no longer appends to the caller's
 dimension list

---
 python/aces/clf/LUT3D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index d562d93..179b4de 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -87,8 +87,7 @@ class LUT3D(ProcessNode):
     # setIndexMaps
 
     def setArray(self, dimension, values, floatEncoding='string'):
-        dimensions = dimension
-        dimensions.append(3)
+        dimensions = list(dimension) + [3]
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
-- 
2.43.0


From d4e66f95c98cc1e141f871a91470a3f3f67aff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 05/48] fix: ExposureContrast copied the extra channels of the
 first pixel to every pixel

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..c0c08c7 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -163,7 +163,7 @@ class ExposureContrast(ProcessNode):
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From 5df69a2a3722e7e2e4ae2ea35676e4d6b7a4aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 06/48] fix: ExposureContrast video style had misplaced
 parentheses and always raised

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index c0c08c7..cdab535 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -148,7 +148,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From 0c9b24988be55e4937925ff71b680df20b2af5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 07/48] fix: ExposureContrast log style lacked the math import
 and overwrote the pixel index

---
 python/aces/clf/ExtensionExposureContrast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index cdab535..64996d6 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -156,8 +158,8 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From e85b9080f85109443f520f2c20dcfb40442eac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 08/48] fix: the no-clamp reverse CDL styles clamped to [0,1]

---
 python/aces/clf/ASCCDL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..ce86252 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -218,9 +218,9 @@ class ASCCDL(ProcessNode):
                 for i in range(3):
                     outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                     if outSat < 0:
-                        outValue[i] = ( clamp(outSat) - offset[i] ) / slope[i]
+                        outValue[i] = ( outSat - offset[i] ) / slope[i]
                     else:
-                        outValue[i] = ( pow( clamp(outSat), 1.0/power[i] ) - offset[i] ) / slope[i]
+                        outValue[i] = ( pow( outSat, 1.0/power[i] ) - offset[i] ) / slope[i]
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
-- 
2.43.0


From 5f678ddc22093a34257d2fbada3af820510507af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 09/48] fix: processing a ColorCorrection raised KeyError as it
 has no bit depth attributes

---
 python/aces/clf/ASCCDL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index ce86252..f3bed94 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -130,11 +130,12 @@ class ASCCDL(ProcessNode):
             return values
 
         # Base attributes
-        inBitDepth = self._attributes['inBitDepth']
-        outBitDepth = self._attributes['outBitDepth']
+        inBitDepth = self.getAttribute('inBitDepth')
+        outBitDepth = self.getAttribute('outBitDepth')
 
         # Node attributes
-        style = ''
+        # ColorCorrection elements don't have a style. They are always forward transforms
+        style = 'Fwd'
         if 'style' in self._attributes: style = self._attributes['style']
 
         if (not(getFeatureCompatibility() & featureSets["Autodesk"]) and
-- 
2.43.0


From 9ce99d9ac37c0f8a6987e27bcec33ab62d6639f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 10/48] fix: moncurveRev compared against the forward break
 point instead of its own

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..b6a0b31 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -171,7 +171,7 @@ class Gamma(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= (offset[i]/(gamma[i]-1)) ):
+                    if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 1c5bb27807e3e38801e473b56db3798a7288ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 11/48] fix: Gamma used integer division when gamma is an
 integer

---
 python/aces/clf/ExtensionGamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index b6a0b31..9deed25 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -151,14 +151,14 @@ class Gamma(ProcessNode):
             elif style == 'basicRev':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-                    outValue[i] = pow(max(0.0, outValue[i]), 1/gamma[i])
+                    outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = (offset[i]/(gamma[i]-1))
+                    pivot = (offset[i]/(gamma[i]-1.0))
                     if( outValue[i] <= pivot ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
                     else:
-- 
2.43.0


From 6c55351c5aa009e9f3f84f14d05d3e7f539b4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 12/48] fix: getIndexMapDimensions called a method IndexMap
 does not have

---
 python/aces/clf/LUT1D.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..3e12624 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -112,7 +112,7 @@ class LUT1D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 179b4de..73ef35b 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -104,7 +104,7 @@ class LUT3D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
-- 
2.43.0


From 0e26741f2718b8d618eed1ad6a250f2b72257024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 13/48] fix: IndexMap.setValues with caching called a method
 that does not exist

---
 python/aces/clf/IndexMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 10d231e..14d69c9 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -82,7 +82,7 @@ class IndexMap:
     def setValues(self, values):
         self._values = values
         if self._useCachedProcess and self._values != [] and self._dimension != []:
-            self._createCachedEval()
+            self._createCachedProcess()
     def getValues(self):
         return self._values
 
-- 
2.43.0


From e66d80fe3f104a312ccbac47dc6979a388078e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 14/48] fix: IndexMap interpolation used integer division for
 integer values

---
 python/aces/clf/IndexMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 14d69c9..20e5148 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -119,7 +119,7 @@ class IndexMap:
                 if value <= inputValues[i+1]:
                     inputLow = inputValues[i]
                     inputHigh = inputValues[i+1]
-                    interp = (value - inputLow)/(inputHigh - inputLow)
+                    interp = float(value - inputLow)/(inputHigh - inputLow)
                     outputLow = outputValues[i]
                     outputHigh = outputValues[i+1]
                     result = interp*(outputHigh - outputLow) + outputLow
-- 
2.43.0


From ce40f8af5d51fef3c63fce830e619c4f2f3cfb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 15/48] fix: Log.process lacked the default stride of every
 other node

---
 python/aces/clf/ExtensionLog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..e7aeade 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -112,7 +112,7 @@ class Log(ProcessNode):
         return None
     # readChild
 
-    def process(self, values, stride, verbose=False):
+    def process(self, values, stride=0, verbose=False):
         # Base attributes
         inBitDepth = self._attributes['inBitDepth']
         outBitDepth = self._attributes['outBitDepth']
-- 
2.43.0


From 00a54a90c8b0e5610db959a0f9546b589b4c6cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 16/48] fix: ProcessNode.process returned an undefined name

---
 python/aces/clf/ProcessNode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b0b1a28..38c4785 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -306,7 +306,7 @@ class ProcessNode():
     def process(self, values, stride=0, verbose=False):
         if verbose:
             print( "ProcessNode::process - no op")
-        return value
+        return values
 
     # Setters and getters
     def setInBitDepth(self, name):
-- 
2.43.0


From f9a6a9922716c0bea2e116bfc479c9634669f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 17/48] fix: a node with bypass set to False was bypassed, and
 Groups ignored the feature set

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 python/aces/clf/ProcessList.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..ff38fdf 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if (not processNode.getAttribute('bypass') or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..ae72d26 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -354,7 +354,7 @@ class ProcessList:
             #print( "processing : %s" % result )
 
             # Process the current value using the ProcessNode
-            if (processNode.getAttribute('bypass') == None or
+            if (not processNode.getAttribute('bypass') or
                 not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
-- 
2.43.0


From 38486df051e7aec14f839ee62152aa05c38c305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 18/48] fix: boolean node attributes spelled 'false' in XML
 were taken as true

---
 python/aces/clf/ProcessNode.py | 5 +++--
 python/aces/clf/Range.py       | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index 38c4785..5d02097 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -196,8 +196,9 @@ class ProcessNode():
         # Store attributes
         for key, value in element.attrib.iteritems():
             # Convert text to booleans where appropriate
-            if value in ["True", "False"]:
-                value = (value == "True")
+            if (value in ["True", "False"] or 
+                (key in ["bypass", "halfDomain", "rawHalfs", "defaultRange"] and value in ["true", "false"])):
+                value = (value in ["True", "true"])
             self.setAttribute(key, value)
 
         elementType = self.getElementType(element.tag)
diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 99e860a..523b369 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -109,7 +109,7 @@ class Range(ProcessNode):
         if 'style' in self._attributes: 
             clamp = (self._attributes['style'] == 'clamp')
         if 'defaultRange' in self._attributes: 
-            defaultRange = True
+            defaultRange = bool(self._attributes['defaultRange'])
 
         # Node parameters
         minInValue = None
-- 
2.43.0


From c56677366ca5c8ad88a4f6535f02112c1bc000b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 19/48] fix: errors raised while reading a gzipped file were
 hidden by a second, plain XML read

---
 python/aces/clf/ProcessList.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index ae72d26..fde005d 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -240,15 +240,14 @@ class ProcessList:
             try:
                 f = gzip.open(clfPath, 'rb')
                 tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
                 f.close()
 
             # Read as normal XML otherwise
             except:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
+
+            root = tree.getroot()
+            self.read(root, strict)
 
         # Read as XML otherwise
         else:
-- 
2.43.0


From bda46884e288402ca107779de67eef7fb23d0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 20/48] fix: a Reference without a path tried to read its base
 path as a file

---
 python/aces/clf/ExtensionReference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..c89363f 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -62,8 +62,8 @@ from ProcessNode import *
 # Ignores the 'alias' attribute for now
 def resolvePath(path, basePath, alias):
     fullPath = None
-    if 'path' != '':
-        if 'basePath' != '':
+    if path != '':
+        if basePath != '':
             fullPath = os.path.join(basePath, path)
             #print( fullPath )
         else:
-- 
2.43.0


From ca8ffdda5b6ccf3e415e7dd9b6a1042a14b014df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 21/48] fix: self-contained writing raised on a Reference whose
 file is missing

---
 python/aces/clf/ExtensionReference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index c89363f..1fed49c 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -105,7 +105,7 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes:
+        if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
                 process.write(tree)
-- 
2.43.0


From a681e33cdb61a1f0b8564a9ece2a3a565e97a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 22/48] fix: self-contained writing left References in Groups
 and in referenced files in place

---
 python/aces/clf/ExtensionGroup.py     | 7 ++++++-
 python/aces/clf/ExtensionReference.py | 9 ++++++++-
 python/aces/clf/ProcessList.py        | 7 ++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index ff38fdf..f77a023 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -89,7 +89,12 @@ class Group(ProcessNode):
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, ProcessList.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(node)
+
+            # Groups may contain other Groups
+            if isinstance(process, Group):
+                process.write(node, writeSelfContained)
+            else:
+                process.write(node)
         
         return node
     # write
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 1fed49c..dff5a54 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -108,7 +108,14 @@ class Reference(ProcessNode):
         if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
-                process.write(tree)
+                # The nodes of the referenced file may hold References too
+                if isinstance(process, Reference):
+                    process.setWriteReferencedNodes(True)
+                    process.write(tree)
+                elif isinstance(process, ProcessList.ProcessList.getClass("Group")):
+                    process.write(tree, True)
+                else:
+                    process.write(tree)
             return tree
         else:
             node = ProcessNode.write(self, tree)
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index fde005d..4ddb5a0 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -140,7 +140,12 @@ class ProcessList:
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, self.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(tree)
+
+            # Groups may contain References
+            if isinstance(process, self.getClass("Group")):
+                process.write(tree, writeSelfContained)
+            else:
+                process.write(tree)
         
         document = etree.ElementTree(tree)
 
-- 
2.43.0


From 753310808165d9331aa83f95e0d9844cbd05ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 23/48] fix: strict reading did not apply to the nodes inside a
 Group

---
 python/aces/clf/ExtensionGroup.py | 16 ++++++++++++++--
 python/aces/clf/ProcessList.py    | 24 +++++++++++++++---------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index f77a023..b4ab581 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -62,6 +62,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -99,6 +100,11 @@ class Group(ProcessNode):
         return node
     # write
 
+    def read(self, element, strict=False):
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, child):
         elementType = self.getElementType(child.tag)
         elementClass = ProcessList.getClass(elementType)
@@ -106,15 +112,21 @@ class Group(ProcessNode):
 
         if elementClass != None:
             element = elementClass()
-            element.read(child)
 
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                element.read(child, strict=self._strict)
+                ProcessList.checkNodeCompatibility(elementType, self._strict)
                 self.addProcess( element )
             else:
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            else:
+                print( "Group::read - %s" % msg )
 
         return None
     # readChild
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 4ddb5a0..59c0d78 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -189,6 +189,20 @@ class ProcessList:
         return elementType
     # getElementType
 
+    # Check that a given ProcessNode class is compatible with the current feature set
+    @staticmethod
+    def checkNodeCompatibility(elementType, strict=False):
+        if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+            not (getFeatureCompatibility() & featureSets["Autodesk"])) or
+            (elementType in ["Group"] and
+                not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
+            msg = "Unsupported feature : ProcessNode type %s" % elementType
+            if strict:
+                raise Errors.UnsupportedExtensionError(msg)
+            else:
+                print( "ProcessList::read - %s" % msg )
+    # checkNodeCompatibility
+
     def read(self, element, strict=False):
         root = element
 
@@ -214,15 +228,7 @@ class ProcessList:
 
                     # Check that a given ProcessNode class is compatible with 
                     # the current feature set
-                    if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
-                        not (getFeatureCompatibility() & featureSets["Autodesk"])) or
-                        (elementType in ["Group"] and
-                            not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
-                        msg = "Unsupported feature : ProcessNode type %s" % elementType
-                        if strict:
-                            raise Errors.UnsupportedExtensionError(msg)
-                        else:
-                            print( "ProcessList::read - %s" % msg )
+                    ProcessList.checkNodeCompatibility(elementType, strict)
 
                     self.addProcess( element )
 
-- 
2.43.0


From 1993f1c2499a101e3a92e6c3050d87b2919d1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 24/48] fix: sampling, reading and writing non-cubic 3D LUTs
 mixed up the axes

---
 python/aces/lutFormats/LutCSP.py   | 10 +++++-----
 python/aces/lutFormats/Sampling.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..146af24 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -334,7 +334,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
@@ -507,9 +507,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, resolution)) )
      
             # Note: CSP increments red fastest
-            for b in range(resolution[0]):
+            for b in range(resolution[2]):
                 for g in range(resolution[1]):
-                    for r in range(resolution[2]):
+                    for r in range(resolution[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, data[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
@@ -553,9 +553,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, lutResolution3d)) )
      
             # Note: CSP increments red fastest
-            for b in range(lutResolution3d[0]):
+            for b in range(lutResolution3d[2]):
                 for g in range(lutResolution3d[1]):
-                    for r in range(lutResolution3d[2]):
+                    for r in range(lutResolution3d[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, samples3d[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..1252157 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -334,7 +334,7 @@ def sample3D(processList,
     #print( "sample3D" )
 
     # Sample all values in 3D range
-    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
@@ -472,7 +472,7 @@ def sample1D3D1D(processList,
     #
     #print( "sampleAndWrite1D3D1D - create 3D LUT" )
 
-    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
-- 
2.43.0


From f644a13d5fcd82852b3f3569cbd25419cec8d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 25/48] fix: the output shaper LUT was sampled from the input
 shaper

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 1252157..c8c7f9f 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -514,7 +514,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From 6c95e7abaeef9888788b41590098f3cd93c93b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 26/48] fix: the CTL 1D writer stored the first channel for all
 components

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..1358d85 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -176,7 +176,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From 40a4dc4fe4f6a3e22b9dc19a5fe9f2a1dab3bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 27/48] fix: reading with a format without a reader raised
 NameError instead of returning False

---
 python/aces/lutFormats/LutFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutFormat.py b/python/aces/lutFormats/LutFormat.py
index 85d5c85..613943e 100644
--- a/python/aces/lutFormats/LutFormat.py
+++ b/python/aces/lutFormats/LutFormat.py
@@ -146,7 +146,7 @@ class LutFormat():
              interpolation='linear',
              inversesUseIndexMaps=True, 
              inversesUseHalfDomain=True):
-        print( "Format %s can not be read" % self.formatType )
+        print( "Format %s can not be read" % cls.formatType )
         return False
 
     @classmethod
-- 
2.43.0


From 2c2d04c2275981741eb9678d76678e572cd7da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 28/48] fix: blank lines in spi1d files raised IndexError

---
 python/aces/lutFormats/LutSPI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..cc25a74 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -170,6 +170,10 @@ class LutFormatSPI(LutFormat.LutFormat):
             #print( "line : %s" % line )
             tokens = line.split()
 
+            # Skip blank lines
+            if not tokens:
+                continue
+
             if tokens[0] == "Version":
                 version = int(tokens[1])
                 if version != 1:
-- 
2.43.0


From 4fe861cb50157a49f79571ec6be6aead81aff384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 29/48] fix: single-threaded filtering only processed row 5 of
 the image

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From 981652a0e991be168c574ba579ca7452820f0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 30/48] fix: an unreadable input image raised instead of
 aborting the filtering

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..a64a6bf 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From e000e2d1923697a7ee82c05514a5a0bdb723f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 31/48] fix: filtering a one row image divided by zero in the
 progress report

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index a64a6bf..2cc1a52 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From b4f3d80962577b3493389050a9bd3c0c1ef0180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 32/48] fix: the test for a 3x3 matrix inside a 4x4 one had
 misplaced brackets

---
 python/aces/convertOCIOtoCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..1b46f5b 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,8 +79,8 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
-- 
2.43.0


From e22c518bcc6f49ed0968cda837adb89f70cf875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 33/48] fix: a 3x4 matrix converted from OCIO carried a fourth
 row of values

---
 python/aces/convertOCIOtoCLF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 1b46f5b..ed71f1c 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -85,6 +85,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
                 resolution = [3, 4, 3]
+                matrix = matrix[0:12]
                 matrix[3] = offset[0]
                 matrix[7] = offset[1]
                 matrix[11] = offset[2]
-- 
2.43.0


From 715c6871d7d810f27a70c701a53338aebc539676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 34/48] fix: the offset of a 4x4 OCIO matrix transform with
 alpha terms was dropped

---
 python/aces/convertOCIOtoCLF.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index ed71f1c..a91045b 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -101,6 +101,12 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 resolution = [3, 3, 3]
                 matrix = matrix33
 
+        # Keep the offset of a full 4x4 matrix
+        elif( len(matrix) == 16 and
+            ( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 or offset[3] != 0.0 ) ):
+            resolution = [4, 5, 4]
+            matrix = [value for row in range(4) for value in matrix[row*4:row*4+4] + [offset[row]]]
+
         mpn1 = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "matrix1", "matrix1")
         mpn1.setMatrix(resolution, matrix)
     else:
-- 
2.43.0


From 5d14f7fca3f84bc76db9bc4a727237426148b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 35/48] fix: integer images were truncated rather than rounded,
 and wrapped out of range

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 2cc1a52..5712fb8 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -229,7 +229,7 @@ def writePixelArray(outputPath,
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
         for i in range(len(pixels)):
-            pixels8[i] = int(pixels[i])
+            pixels8[i] = int(max(0.0, min(255.0, pixels[i])) + 0.5)
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -247,7 +247,7 @@ def writePixelArray(outputPath,
         pixels16 = np.zeros(width*height*channels, dtype=np.uint16)
         # Cast to 16 bit and reset integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(pixels[i]) << bitShift
+            pixels16[i] = int(max(0.0, min(65535 >> bitShift, pixels[i])) + 0.5) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From 7bc70c60afae63deb11c77b03ba46336fba47a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 36/48] fix: csp files without a blank line after the metadata
 or the preluts were misread

---
 python/aces/lutFormats/LutCSP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 146af24..96b1340 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -275,8 +275,6 @@ class LutFormatCSP(LutFormat.LutFormat):
                         #print( "metadata line : %s" % line.rstrip() )
 
                 #print( "metadata : %s" % metadata)
-                dataStart += 1
-                
                 while lines[dataStart].rstrip() == '':
                     #print( "blank line")
                     dataStart += 1
@@ -309,7 +307,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                 #
                 # Read LUT data
                 #
-                dataStart = dataStart+10
+                dataStart = dataStart+9
 
                 while lines[dataStart].rstrip() == '':
                     #print( "blank line")
-- 
2.43.0


From f88bce44c4654f4dce0d0335f03a364b8f1dab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 37/48] fix: a blank line inside the csp samples shifted the
 samples after it

---
 python/aces/lutFormats/LutCSP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 96b1340..45bb022 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -346,7 +346,7 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
 
                 # 1D LUT data
                 elif format == "1D":
@@ -368,7 +368,7 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
 
         #
         # Create ProcessNodes
-- 
2.43.0


From b6279f346ce600f8c0f9469f3d015343745215b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 38/48] fix: csp preluts of different lengths or ranges per
 channel raised

---
 python/aces/lutFormats/LutCSP.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 45bb022..af669ff 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -213,15 +213,19 @@ class LutFormatCSP(LutFormat.LutFormat):
                 # For each channel
                 for channel in range(len(cspPreluts)):
                     # Find the location of the de-normalized value in the prelut
-                    for prelutIndex in range(inputResolution):
+                    channelResolution = len(cspPreluts[channel][0])
+                    for prelutIndex in range(channelResolution):
                         if cspPreluts[channel][0][prelutIndex] > rangedValue:
                             break
 
                     # Get the interpolation value
                     prelutIndexLow = max(0, prelutIndex-1)
-                    prelutIndexHigh = min(inputResolution-1, prelutIndex)
-                    prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
-                        cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
+                    prelutIndexHigh = min(channelResolution-1, prelutIndex)
+                    if prelutIndexLow == prelutIndexHigh:
+                        prelutInterp = 0.0
+                    else:
+                        prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
+                            cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
 
                     # Find the output value
                     outputInterpolationRange = (cspPreluts[channel][1][prelutIndexHigh] - cspPreluts[channel][1][prelutIndexLow])
-- 
2.43.0


From 40b59d94bb250d2300c93af93e4b835918ca79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 39/48] fix: the outputs and per-channel ranges of two entry
 csp preluts were ignored

---
 python/aces/lutFormats/LutCSP.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index af669ff..33b3fea 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -171,9 +171,8 @@ class LutFormatCSP(LutFormat.LutFormat):
         # resolution of the resampled lut relative to the source
         outputResolution = inputResolution
 
-        # If the prelut only affects the range, skip this step
-        if inputResolution > 2:
-            outputResolution *= 2
+        # Does no harm if the prelut only affects the range
+        outputResolution *= 2
 
         # Find the minimum and maximum input
         # XXX
@@ -195,7 +194,9 @@ class LutFormatCSP(LutFormat.LutFormat):
         prelutpns.append(rangepn)
 
         # If the prelut only affects the range, skip generating a lut to represent it
-        if inputResolution > 2:
+        rangeOnly = all([list(prelut[0]) == [minInputValue, maxInputValue] and 
+            list(prelut[1]) == [0.0, 1.0] for prelut in cspPreluts])
+        if not rangeOnly:
             # Generate 1d LUT by running values through the
             # - inverse normalization
             # - the cspprelut
-- 
2.43.0


From 11a54b45c56a41560b19dca8983fe9dac9eb659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 40/48] fix: the 1D 3D 1D CLF writer applied the inverse of the
 input shaper

---
 python/aces/lutFormats/LutCLF.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/python/aces/lutFormats/LutCLF.py b/python/aces/lutFormats/LutCLF.py
index f14c496..b35b9b8 100644
--- a/python/aces/lutFormats/LutCLF.py
+++ b/python/aces/lutFormats/LutCLF.py
@@ -132,16 +132,18 @@ class LutFormatCLF(LutFormat.LutFormat):
 
         # Create the input shaper
         if samples1dIn:
-            if inversesUseIndexMaps:
-                #print( "Generating inverse of 1D LUT using Index Maps")
-                lutpnInverses = Sampling.generateLUT1DInverseIndexMap([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)
-            elif inversesUseHalfDomain:
-                #print( "Generating full half-domain inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseHalfDomain([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax, rawHalfs=True)
-            else:
-                #print( "Generating resampled inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseResampled([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)            
-            lutpns.extend(lutpnInverses)
+            # Remap input range
+            if inputMin != 0.0 or inputMax != 1.0:
+                rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "range", "range")
+                rangepn.setMinInValue(inputMin)
+                rangepn.setMaxInValue(inputMax)
+                rangepn.setMinOutValue(0.0)
+                rangepn.setMaxOutValue(1.0)
+                lutpns.append(rangepn)
+
+            lutpnIn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d_in", "lut1d_in", interpolation='linear')
+            lutpnIn.setArray(3, samples1dIn)
+            lutpns.append(lutpnIn)
 
         # Create the 3D LUT
         clfSamples = [0.0]*(lutResolution3d[0]*lutResolution3d[1]*lutResolution3d[2])*3
-- 
2.43.0


From 0a41027bd335fd14415362d0195a510ab2123ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 41/48] fix: ExposureContrast.printInfo reported the exposure
 as the contrast

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 64996d6..da74aba 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -183,7 +183,7 @@ class ExposureContrast(ProcessNode):
         print( "\tPivot     : %s" % param[2] )
         '''
 
-        values = {"exposure":param[0], "contrast":param[0], "pivot":param[2]}
+        values = {"exposure":param[0], "contrast":param[1], "pivot":param[2]}
 
         for key, value in values.iteritems():
             print( "%20s : %15s : %15s" % ("Value", key, value) )
-- 
2.43.0


From 255465594b7a6b6d0cf1c635ed3d3aebdf379438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 42/48] fix: arrays with infinite values could not be written
 at an integer output depth

---
 python/aces/clf/Array.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index e6fda15..a098635 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -145,15 +145,9 @@ class Array:
         else:
             columns = self._dimensions[1]
 
-        integers = self._valuesAreIntegers
-
         for n in range(len(self._values)/columns):
             sample = self._values[n*columns:(n+1)*columns]
 
-            # Integer values
-            if integers:
-                sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
-
             # Float Values
             # Floats encoded using bitwise equivalent hex or integer values
             if self._floatEncoding != 'string':
-- 
2.43.0


From 3ea0b9d1c0ea2ec6f2f650bb85da8c75e59393cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 43/48] fix: lists with non-ASCII text could not be written to
 a file

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 59c0d78..ed89147 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -70,7 +70,7 @@ class ProcessList:
         documentString = etree.tostring(document.getroot(), encoding='UTF-8')
             
         from xml.dom import minidom
-        prettyString = minidom.parseString(documentString).toprettyxml()
+        prettyString = minidom.parseString(documentString).toprettyxml(encoding='UTF-8')
        
         return prettyString
     #xmlPrettify
-- 
2.43.0


From c802adb969cedb0b2c7b36a599168ad54104608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 44/48] fix: the alpha offset of an OCIO matrix was dropped

---
 python/aces/convertOCIOtoCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index a91045b..9654aa6 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -80,7 +80,8 @@ def convertMatrixToProcessNode(matrix, offset, direction):
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
             ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0 and
+                offset[3] == 0.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
@@ -89,7 +90,6 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 matrix[3] = offset[0]
                 matrix[7] = offset[1]
                 matrix[11] = offset[2]
-                # CLF ignores the alpha offset
 
             # Or just copy into a smaller matrix
             else:
-- 
2.43.0


From 67747dabd0fc8d940ccb87a2e20995654a8121d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 45/48] fix: csp files could not be written without an input
 shaper

---
 python/aces/lutFormats/LutCSP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 33b3fea..cd92596 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -539,6 +539,13 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('\n')
 
             for c in range(3):
+                # Without an input shaper, the prelut only holds the range
+                if samples1dIn is None:
+                    fp.write('2\n')
+                    fp.write('%f %f\n' % (inputMin, inputMax))
+                    fp.write('0.0 1.0\n')
+                    continue
+
                 fp.write('%d\n' % lutResolution1dIn)
 
                 for s in range(lutResolution1dIn):
-- 
2.43.0


From dc7d6143e6ba9773dd6ac260e4f0ac2810157bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 46/48] fix: images with bits per sample metadata could not be
 written as floats

---
 python/aces/filterImageWithCLF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 5712fb8..809ac91 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -271,7 +271,9 @@ def writePixelArray(outputPath,
         clf.bitDepths["UINT8"] : 8,
         clf.bitDepths["UINT10"] : 10,
         clf.bitDepths["UINT12"] : 12,
-        clf.bitDepths["UINT16"] : 16
+        clf.bitDepths["UINT16"] : 16,
+        clf.bitDepths["FLOAT16"] : 16,
+        clf.bitDepths["FLOAT32"] : 32
     }
 
     # Add the metadata tags
-- 
2.43.0


From d4a2615b9c041ab639fda85eba63437f86b3713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 47/48] fix: the half-domain inverse of a 1D LUT ignored the
 table's input range

---
 python/aces/lutFormats/Sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c8c7f9f..9e1e425 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -231,6 +231,8 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
 
                 # Find the output value
                 outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
+                outputInterpolated = outputInterpolated*(
+                    maxInputValue - minInputValue) + minInputValue
 
             inverseSample[channel] = outputInterpolated
 
-- 
2.43.0


From 1a588e1f9525f3af00835efaab41c02857642b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:43 +0000
Subject: [PATCH 48/48] fix: convertCLFtoLUT ignored --lutResolution3d

---
 python/aces/convertCLFtoLUT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/convertCLFtoLUT.py b/python/aces/convertCLFtoLUT.py
index 7627e64..ba9222d 100644
--- a/python/aces/convertCLFtoLUT.py
+++ b/python/aces/convertCLFtoLUT.py
@@ -196,7 +196,7 @@ def main():
         lutResolution3d = int(options.lutResolution1d3d1d[0][1])
         shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])
     else:
-        (shaperInLutResolution, lutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
+        (shaperInLutResolution, shaperOutLutResolution) = (1024, 2)
 
     # Figure out the data format
     lutDataFormat = lutFormats.LUTDATAFORMAT_1D
-- 
2.43.0

