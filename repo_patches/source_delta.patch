From 7563f1ca3a85eb6ef92fbda50a73b06544e13406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 01/65] fix: MatrixGroup.trace returned the trace of an earlier
 ray or of earlier elements

---
 raytracing/matrixgroup.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..6e4014f 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -29,9 +29,9 @@ class MatrixGroup(Matrix):
             for element in elements:
                 self.append(element)
 
-        # Solely for performance reason: it is common to raytrace
-        # groups of rays that are similar (to mimick intensities)
-        # We keep the last ray and the last ray trace for optimization
+        # We keep the last ray and the last ray trace. They are never used to
+        # answer a later request: two rays at the same height and angle can differ
+        # (z, isBlocked), and the elements may have changed since.
         self._lastRayToBeTraced = None
         self._lastRayTrace = None
 
@@ -430,16 +430,13 @@ class MatrixGroup(Matrix):
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From 027466c4c35c497e40b1a47fd3e2b52c5649e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 02/65] fix: edits of a MatrixGroup at negative positions, down
 to empty, or refused for an index mismatch

---
 raytracing/matrixgroup.py | 59 +++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 6e4014f..4d4160a 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -169,13 +169,30 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
         tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        poppedElement = tempElements.pop(index)  # We pop the matrix in the copy
+        self._replaceElements(tempElements)  # We rebuild the attribute (check indices, compute ABCD, etc)
         return poppedElement
 
+    def _replaceElements(self, elements):
+        """ Rebuild the group from this list of elements (check indices, compute ABCD, etc).
+        If the elements cannot follow each other, the group is left as it was. """
+        savedAttributes = dict(self.__dict__)
+        savedIndices = [(element, element.frontIndex, element.backIndex)
+                        for element in elements if isinstance(element, Matrix)]
+        try:
+            self.elements = []
+            self.A, self.B, self.C, self.D, self.L = 1.0, 0.0, 0.0, 1.0, 0.0
+            self.frontVertex, self.backVertex = None, None
+            self.frontIndex, self.backIndex = 1.0, 1.0
+            for element in elements:
+                self.append(element)
+        except Exception:
+            for element, frontIndex, backIndex in savedIndices:
+                element.frontIndex, element.backIndex = frontIndex, backIndex
+            self.__dict__.update(savedAttributes)
+            raise
+
     def insert(self, index: int, element: Matrix):
         """ This function is used to insert a matrix at a specific index.
 
@@ -214,14 +231,10 @@ class MatrixGroup(Matrix):
         raytracing.MatrixGroup.append
         """
         if not isinstance(element, collections.Iterable):
-            element = MatrixGroup([element])
+            newElements = [element]
         else:
-            element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+            newElements = list(element)
+        self._replaceElements(self.elements[:index] + newElements + self.elements[index:])
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -257,18 +270,19 @@ class MatrixGroup(Matrix):
         -----
         If the key is a slice, the step is not taken into account.
         """
+        if not isinstance(element, collections.Iterable):
+            newElements = [element]
+        else:
+            newElements = list(element)
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            start, stop, _ = slice(key.start, key.stop).indices(len(self))
+            stop = max(start, stop)
         else:
-            self.pop(key)
-            self.insert(key, element)
+            start = range(len(self))[key]  # Same meaning as for a list, IndexError included
+            stop = start + 1
+        self._replaceElements(self.elements[:start] + newElements + self.elements[stop:])
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
@@ -546,9 +560,6 @@ class MatrixGroup(Matrix):
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
             if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(self.elements + list(loadedMatrices))
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(list(loadedMatrices))
-- 
2.43.0


From 16a10d97059dbd1fe117bd7244e9212cb87bcd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 03/65] fix: an element used more than once in a group was
 re-indexed or flipped for its other places

---
 raytracing/matrixgroup.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 4d4160a..38db0d6 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -1,6 +1,7 @@
 from .matrix import *
 
 import collections.abc as collections
+import copy
 
 
 class MatrixGroup(Matrix):
@@ -72,6 +73,9 @@ class MatrixGroup(Matrix):
             if lastElement.backIndex != matrix.frontIndex:
                 if isinstance(matrix, Space):  
                     # For Space(), we fix it
+                    if any(matrix is element for element in self.elements):
+                        # The same object is already used elsewhere, in another medium
+                        matrix = copy.copy(matrix)
                     matrix.frontIndex = lastElement.backIndex
                     matrix.backIndex = matrix.frontIndex
                 else:
@@ -483,13 +487,14 @@ class MatrixGroup(Matrix):
         Each element is also flipped individually. """
         self.isFlipped = not self.isFlipped
 
-        allElements = self.elements
-        allElements.reverse()
-        self.elements = []
-
+        allElements = self.elements[::-1]
+        flippedElements = []
         for element in allElements:
-            element.flipOrientation()
-            self.append(element)
+            # The same object can be used more than once
+            if not any(element is other for other in flippedElements):
+                element.flipOrientation()
+                flippedElements.append(element)
+        self._replaceElements(allElements)
 
         return self
 
-- 
2.43.0


From 0e5c39e2f3e3d9a91705caa7ec6ce245734bdbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 04/65] fix: LaserCavity.appendElementsInReverse left the
 cavity matrix without the added elements

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..70a40b9 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -55,7 +55,7 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
-            self.elements.append(element)
+            self.append(element)
 
 
     def eigenModes(self):
-- 
2.43.0


From e3656e5b55ea0158dc4ee1a8c2f4a21bcdfb2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 05/65] fix: LaserCavity modes were always in air, and could
 not be traced in a cavity filled with glass

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 70a40b9..80def18 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -82,7 +82,7 @@ class LaserCavity(LaserPath):
 
         q1 = (- b + sqrtDelta) / (2.0 * self.C)
         q2 = (- b - sqrtDelta) / (2.0 * self.C)
-        return (GaussianBeam(q=q1), GaussianBeam(q=q2))
+        return (GaussianBeam(q=q1, n=self.frontIndex), GaussianBeam(q=q2, n=self.frontIndex))
 
     def laserModes(self):
         """
-- 
2.43.0


From 98cfe8c2b1faab771a79d2e4edec38484145e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 06/65] fix: a flipped ThickLens had its front and back
 vertices exchanged

---
 raytracing/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..2df2b79 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1887,6 +1887,9 @@ class ThickLens(Matrix):
         super implementation because other things must be flipped (vertices for instance)
         """
         super(ThickLens, self).flipOrientation()
+        # The vertices are at both ends: seen from the other side, they still are.
+        self.frontVertex = 0
+        self.backVertex = self.L
 
         temp = self.R1
         self.R1 = -self.R2
-- 
2.43.0


From f283463cac3cb19ea1847eb542bd82e7c2b69a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 07/65] fix: backwardConjugate failed when the front medium is
 not air

---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 2df2b79..9d97cde 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1304,7 +1304,7 @@ class Matrix(object):
             distance = -self.B / self.A
         else:
             distance = float("+inf")
-        conjugateMatrix = self * Space(d=distance)
+        conjugateMatrix = self * Space(d=distance, n=self.frontIndex)
         # This element is A*d + B, A is precisely 0, d is large, therefore B' == 0.
         conjugateMatrix.B = 0 
 
-- 
2.43.0


From 66ecb32b18cc3920a4137e2371eeca1361335aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 08/65] fix: transferMatrix(upTo=0) and the optical invariant
 at z=0 ignored the index of the first medium

---
 raytracing/matrixgroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 38db0d6..f9b0b16 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -329,7 +329,8 @@ class MatrixGroup(Matrix):
         ray formalism.  To find out if a ray has been blocked, you must
         use trace().
         """
-        transferMatrix = Matrix(A=1, B=0, C=0, D=1)
+        frontIndex = self.elements[0].frontIndex if self.elements else 1.0
+        transferMatrix = Matrix(A=1, B=0, C=0, D=1, frontIndex=frontIndex, backIndex=frontIndex)
         distance = upTo
         for element in self.elements:
             if element.L <= distance:
-- 
2.43.0


From 2685770dccbc159d4ef034cb5a3861d9fb3cbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 09/65] fix: tracing through an element with a length marked
 the caller's ray as blocked, and forgot its own aperture

---
 raytracing/matrix.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 9d97cde..0da3f09 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -657,8 +658,15 @@ class Matrix(object):
         rayTrace = []
         if isinstance(ray, Ray):
             if self.L > 0:
+                # The ray at the entrance of this element: the ray we were given is not ours to modify
+                ray = copy.copy(ray)
                 if abs(ray.y) > self.apertureDiameter/2:
+                    if not ray.isBlocked:
+                        ray.apertureDiameter = self.apertureDiameter
                     ray.isBlocked = True
+                elif not ray.isBlocked and abs(ray.y) > abs((self*ray).y):
+                    # It is here, not at the exit, that this element limits the ray the most
+                    ray.apertureDiameter = self.apertureDiameter
                 rayTrace.append(ray)
 
         rayTrace.append(self * ray)
-- 
2.43.0


From 63a7ef89c92fa1cea71956d22a3f38ee02037b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 10/65] fix: an Axicon deviated rays that had been blocked
 before reaching it

---
 raytracing/axicon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..0fe1b0b 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -99,6 +99,10 @@ class Axicon(Matrix):
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
 
+        if rightSideRay.isBlocked:
+            # The ray did not make it here
+            return outputRay
+
         if rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
         elif rightSideRay.y < 0:
-- 
2.43.0


From 4a1bff21a22f81c9d04abf73df91dd38c4d75f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 11/65] fix: apertureStop overlooked the apertures that come
 after one that blocks a 0.1 rad ray

---
 raytracing/imagingpath.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..978c00a 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -465,8 +465,11 @@ class ImagingPath(MatrixGroup):
         if not self.hasFiniteApertureDiameter():
             return Stop(z=None, diameter=float('+Inf'))
         else:
-            ray = Ray(y=0, theta=0.1)  # Any ray angle will do
-            rayTrace = self.trace(ray)
+            theta = 0.1  # Any ray angle will do, if the ray makes it through the whole path
+            rayTrace = self.trace(Ray(y=0, theta=theta))
+            while rayTrace[-1].isBlocked and theta > 1e-12:
+                theta /= 10
+                rayTrace = self.trace(Ray(y=0, theta=theta))
 
             maxRatio = 0.0
             apertureStopPosition = 0
-- 
2.43.0


From b036c7c1107fbc5d63edf6e02c35a1acef3823c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 12/65] fix: an aperture at an image of the object was taken
 for the aperture stop, and fieldStop then failed

---
 raytracing/imagingpath.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 978c00a..43aad41 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -476,6 +476,9 @@ class ImagingPath(MatrixGroup):
             apertureStopDiameter = float("+Inf")
 
             for ray in rayTrace:
+                if abs(ray.y) <= theta * self.__epsilon__:
+                    # An aperture conjugate to the object (see isImaging) does not limit the rays
+                    continue
                 ratio = abs(ray.y / ray.apertureDiameter)
                 if ratio > maxRatio:
                     apertureStopPosition = ray.z
@@ -617,6 +620,8 @@ class ImagingPath(MatrixGroup):
             chiefRayTrace = []
             while abs(dy) > self.precision or not wasBlocked:
                 chiefRay = self.chiefRay(y=y)
+                if chiefRay is None:
+                    return Stop(z=None, diameter=float('+Inf'))
                 chiefRayTrace = self.trace(chiefRay)
                 outputChiefRay = chiefRayTrace[-1]
 
-- 
2.43.0


From 140cf828e586ace52acbb5bb7a7d2b042ccc7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 13/65] fix: ImagingPath.NA() failed when there is no aperture
 stop

---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 43aad41..d177ad9 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -404,6 +404,8 @@ class ImagingPath(MatrixGroup):
         raytracing.ImagingPath.fNumber
         """
         axialRay = self.axialRay()
+        if axialRay is None:
+            return None
         return self.frontIndex * np.sin(axialRay.theta)
 
     def apertureStop(self):
-- 
2.43.0


From 9928e13e22775eccedfe783ca4ec23450f4d1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 14/65] fix: Rays built from an iterator was silently empty

---
 raytracing/rays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..d6904e4 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,8 +64,9 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)  # An iterator can only be read once
                 if all([isinstance(ray, Ray) for ray in rays]):
-                    self._rays = list(rays)
+                    self._rays = rays
                 else:
                     raise TypeError("'rays' elements must be of type Ray.")
             else:
-- 
2.43.0


From 759a7691972db138de5ae54a1f1e2aafc8a5e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 15/65] fix: traceManyThroughInParallel lost the rays of an
 iterator when falling back to serial tracing

---
 raytracing/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 0da3f09..873a448 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -876,11 +876,11 @@ class Matrix(object):
         the array in #processes different lists.
         """
 
+        theExplicitList = list(inputRays)
         try:
             if processes is None:
                 processes = multiprocessing.cpu_count()
 
-            theExplicitList = list(inputRays)
             manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]
 
             with multiprocessing.Pool(processes=processes) as pool:
@@ -893,7 +893,7 @@ class Matrix(object):
             return Rays(rays=outputRaysList)
         except Exception as err:
             warnings.warn("Multiprocessing failed with: '{0}'. Falling back to slower code.".format(err), ExpertNote)
-            return self.traceManyThrough(inputRays=inputRays, progress=progress)
+            return self.traceManyThrough(inputRays=theExplicitList, progress=progress)
 
     def profileFromRayTraces(self, rayTraces, z=float("+inf")):
         outputRays = Rays()
-- 
2.43.0


From f2286a7383387646375c9659159a571cb21e0869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 16/65] fix: heights, angles and histograms of Rays were those
 from before load()

---
 raytracing/rays.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index d6904e4..c6ed33a 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -425,7 +425,13 @@ class Rays:
             if append and self._rays is not None:
                 self._rays.extend(loadedRays)
             else:
-                self._rays = loadedRays
+                self._rays = list(loadedRays)
+
+        # Invalidate cached values
+        self._yValues = None
+        self._thetaValues = None
+        self._countHistogramParameters = None
+        self._anglesHistogramParameters = None
 
     def save(self, filePath):
 
-- 
2.43.0


From b75dbc394a90085ee86e85d1fae6567d84d20653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 17/65] fix: a histogram request that had been refused was
 answered with an earlier histogram when repeated

---
 raytracing/rays.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index c6ed33a..36137c1 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -192,11 +192,10 @@ class Rays:
             maxValue = max(self.yValues)
 
         if self._countHistogramParameters != (binCount, minValue, maxValue):
-            self._countHistogramParameters = (binCount, minValue, maxValue)
-
             (self._yHistogram, binEdges) = np.histogram(self.yValues,
                                                      bins=binCount,
                                                      range=(minValue, maxValue))
+            self._countHistogramParameters = (binCount, minValue, maxValue)
             self._yHistogram = list(self._yHistogram)
             xValues = []
             for i in range(len(binEdges) - 1):
@@ -272,9 +271,8 @@ class Rays:
             maxValue = max(self.thetaValues)
 
         if self._anglesHistogramParameters != (binCount, minValue, maxValue):
-            self._anglesHistogramParameters = (binCount, minValue, maxValue)
-
             (self._thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
+            self._anglesHistogramParameters = (binCount, minValue, maxValue)
             self._thetaHistogram = list(self._thetaHistogram)
             xValues = []
             for i in range(len(binEdges) - 1):
-- 
2.43.0


From ac4e17ad76185861d24691913f24dbb1bb3f213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 18/65] fix: nested loops over the same Rays or MatrixGroup
 skipped most pairs

---
 raytracing/matrixgroup.py |  2 +-
 raytracing/rays.py        | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index f9b0b16..a9396b0 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -501,7 +501,7 @@ class MatrixGroup(Matrix):
 
     def __iter__(self):
         self.iteration = 0
-        return self
+        return iter(self.elements)  # Each loop has its own position: loops can be nested
 
     def __next__(self):
         if self.elements is None:
diff --git a/raytracing/rays.py b/raytracing/rays.py
index 36137c1..35e7db5 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -358,7 +358,19 @@ class Rays:
     def __iter__(self):
         self.iteration = 0
         self.progressLog = 10000
-        return self
+        return self._iterate()
+
+    def _iterate(self):
+        # Each loop has its own position, so that loops over the same rays can be nested
+        position = 0
+        while True:
+            self.iteration = position
+            try:
+                ray = next(self)
+            except StopIteration:
+                return
+            position += 1
+            yield ray
 
     def __next__(self) -> Ray:
         if self._rays is None:
-- 
2.43.0


From 573513a87174be52112d936a081b25993d1aa753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 19/65] fix: equality of two MatrixGroups depended on what had
 been traced through them

---
 raytracing/matrixgroup.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index a9396b0..47e1738 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -499,6 +499,15 @@ class MatrixGroup(Matrix):
 
         return self
 
+    def __eq__(self, other):
+        if not isinstance(other, MatrixGroup):
+            return super(MatrixGroup, self).__eq__(other)
+        # What was last traced or where an iteration was left is not part of the group
+        transient = ('iteration', '_lastRayToBeTraced', '_lastRayTrace')
+        left = {key: value for key, value in self.__dict__.items() if key not in transient}
+        right = {key: value for key, value in other.__dict__.items() if key not in transient}
+        return left == right
+
     def __iter__(self):
         self.iteration = 0
         return iter(self.elements)  # Each loop has its own position: loops can be nested
-- 
2.43.0


From d49b8d9dabce6483ecb2d7cff383bdc1733ff2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 20/65] fix: the waist of a gaussian beam ignored the index of
 the medium

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index f813d8d..d82085d 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -101,7 +101,7 @@ class GaussianBeam(object):
         The 1/e beam size in electric field extracted from q at the waist of the beam.
         """
         if self.zo > 0:
-            return math.sqrt(self.zo * self.wavelength / math.pi)
+            return math.sqrt(self.zo * self.wavelength / (self.n * math.pi))
         else:
             return None
 
-- 
2.43.0


From 025968a6bd5a8e8d8805fe17ec7ad1f1431cf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 21/65] fix: the largest diameter of a Lens was a half height,
 which depended on whether it had been displayed

---
 raytracing/graphics.py |  8 +++++---
 raytracing/matrix.py   | 14 +-------------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..a091f2b 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -282,14 +282,16 @@ class MatrixGraphic(Graphic):
 
 class LensGraphic(MatrixGraphic):
     def __init__(self, matrix, x=0.0, fixedWidth=False, minSize=0):
-        if matrix.apertureDiameter == float('+Inf') and minSize > matrix._physicalHalfHeight:
-            matrix._physicalHalfHeight = minSize
+        self.minSize = minSize
 
         super(LensGraphic, self).__init__(matrix, x=x, fixedWidth=fixedWidth)
 
     @property
     def mainComponents(self):
-        return [DoubleThinArrow(self.matrix.displayHalfHeight()*2)]
+        halfHeight = self.matrix.displayHalfHeight()
+        if self.matrix.apertureDiameter == float('+Inf'):
+            halfHeight = max(halfHeight, self.minSize)
+        return [DoubleThinArrow(halfHeight*2)]
 
 
 class ApertureGraphic(MatrixGraphic):
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 873a448..4452a0e 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1531,19 +1531,7 @@ class Lens(Matrix):
             The half height of the optical element
         """
         if self.apertureDiameter != float('+Inf'):
-            self._physicalHalfHeight = self.apertureDiameter/2  # real half height
-        return self._physicalHalfHeight
-
-    @property
-    def largestDiameter(self):
-        """ Largest diameter for a group of elements
-
-        Returns
-        -------
-        LargestDiameter : float
-            Largest diameter of the element or group of elements. For a `Matrix`
-            this will simply be the aperture diameter of this element.
-        """
+            return self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
 
-- 
2.43.0


From 106c7ce46b3c74e917d1fedc14ea72b9658210bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 22/65] fix: the gaps to the foci and conjugates of an element
 were always in air

---
 raytracing/matrix.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 4452a0e..38bd68d 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -212,7 +212,8 @@ class Matrix(object):
         the lens, and then to the back focus.
         """
         from .matrixgroup import MatrixGroup
-        return MatrixGroup([Space(self.frontFocalLength()), self, Space(self.backFocalLength())])
+        return MatrixGroup([Space(self.frontFocalLength(), n=self.frontIndex), self,
+                            Space(self.backFocalLength(), n=self.backIndex)])
 
 
 
@@ -1689,7 +1690,7 @@ class ToConjugate(Space):
     def __init__(self, element):
         d = element.forwardConjugate().d
         if isfinite(d):
-            super(ToConjugate, self).__init__(d=element.forwardConjugate().d)
+            super(ToConjugate, self).__init__(d=d, n=element.backIndex)
         else:
             raise ValueError("The conjugate plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
@@ -1701,7 +1702,7 @@ class ToFocus(Space):
     def __init__(self, element):
         bfl = element.backFocalLength()
         if bfl is not None:
-            super(ToFocus, self).__init__(d=bfl)
+            super(ToFocus, self).__init__(d=bfl, n=element.backIndex)
         else:
             raise ValueError("The focal plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
-- 
2.43.0


From 1bb0d4a025c1c384fe243b2a0852e6dee5871637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 23/65] fix: rays starting inside a path went backwards through
 unflipped elements, and only in air

---
 raytracing/imagingpath.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index d177ad9..3647abe 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -946,12 +946,12 @@ class ImagingPath(MatrixGroup):
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
-                    newElements = [Space(zStart - z)]
-                    if i != 0:
-                        newElements.extend(self.elements[i-1::-1])
+                    newElements = [Space(zStart - z, n=element.frontIndex)]
+                    for elementBefore in reversed(self.elements[:i]):
+                        newElements.append(copy.deepcopy(elementBefore).flipOrientation())
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
+                    newElements = [Space(z + element.L - zStart, n=element.frontIndex)]
                     newElements.extend(self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
-- 
2.43.0


From 2d413e822c7d1e608e4429ea20d4fdb372e6db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 24/65] fix: flipped mirrors, interfaces, thick and compound
 lenses were drawn unflipped

---
 raytracing/matrix.py          | 6 ++++++
 raytracing/specialtylenses.py | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 38bd68d..bea2d55 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1579,6 +1579,8 @@ class CurvedMirror(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
+        if self.isFlipped:
+            return [SphericalInterface(R=-2/self.C)]
         return [SphericalInterface(R=2/self.C)]
 
     def pointsOfInterest(self, z):
@@ -1747,6 +1749,8 @@ class DielectricInterface(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
+        if self.isFlipped:
+            return [SphericalInterface(R=-self.R, n=self.n1)]
         return [SphericalInterface(R=self.R, n=self.n2)]
 
     def flipOrientation(self):
@@ -1828,6 +1832,8 @@ class ThickLens(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
+        if self.isFlipped:
+            return [SphericalInterface(R=-self.R2, n=self.n, L=self.L), SphericalInterface(R=-self.R1)]
         return [SphericalInterface(R=self.R1, n=self.n, L=self.L),
                 SphericalInterface(R=self.R2)]
 
diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b910bff..3a65f99 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -46,11 +46,15 @@ class CompoundLens(MatrixGroup):
     def forwardSurfaces(self) -> List[Interface]:
         surfaces = []
         spaceLength = 0
-        for element in reversed(self.elements):
+        elements = self.elements if self.isFlipped else reversed(self.elements)
+        for element in elements:
             if isinstance(element, Space):
                 spaceLength = element.L
             elif isinstance(element, DielectricInterface):
-                surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
+                if self.isFlipped:
+                    surfaces.append(SphericalInterface(-element.R, n=element.n1, L=spaceLength))
+                else:
+                    surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
         surfaces.reverse()
         return surfaces
 
-- 
2.43.0


From 460161c035e399434a621241201a02541bcb5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 25/65] fix: ImagingPath.display() lost the design settings and
 design(), and altered raysList and objectHeight

---
 raytracing/imagingpath.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 3647abe..ece7390 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -976,14 +976,16 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        savedDesignParams = self.figure.designParams.copy()
+        savedObjectHeight = self._objectHeight
+
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
             self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
         self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
 
-        if raysList is None:
-            raysList = []
+        raysList = [] if raysList is None else list(raysList)
         if rays is not None:
             raysList.append(rays)
 
@@ -1013,9 +1015,10 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        savedDesignParams = self.figure.designParams
+        self._objectHeight = savedObjectHeight
         self.figure = Figure(opticalPath=self)
-        self.design = savedDesignParams
+        self.figure.designParams = savedDesignParams
+        self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
-- 
2.43.0


From ad81b98bfdbd31cfb9ff084aabc20d923fe6186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 26/65] fix: LaserPath.display() also showed the waists of the
 beams displayed before

---
 raytracing/figure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..deeee8d 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -561,6 +561,8 @@ class Figure:
     def displayGaussianBeam(self, beams=None,
                             title=None, comments=None, backend='matplotlib', display3D=False, filepath=None):
         self.lineGroups['rays'] = []
+        self.points = []
+        self.annotations = []
         self.graphicGroups[kElementsKey] = self.graphicsOfElements
         for beam in beams:
             self.lineGroups['rays'].extend(self.beamTraceLines(beam))
-- 
2.43.0


From a28f2d77d6eb65a6317ed246d294a16f8350eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 27/65] fix: beginner hints were shown once in beginner mode
 and still shown in expert mode

---
 raytracing/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 869a918..8203040 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -36,10 +36,10 @@ def beginnerMode(saveToPrefs=False):
     """
 
     warnings.formatwarning = warningLineFormat
+    warnings.filterwarnings("default", category=UserWarning)  # first: the next ones are more specific and prevail
     warnings.filterwarnings("always", category=BeginnerHint)
     warnings.filterwarnings("default", category=ExpertNote)
     warnings.filterwarnings("default", category=DeprecationWarning)
-    warnings.filterwarnings("default", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "beginner"
@@ -55,10 +55,10 @@ def expertMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    warnings.filterwarnings("once", category=UserWarning)  # first: the next ones are more specific and prevail
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("once", category=ExpertNote)
     warnings.filterwarnings("once", category=DeprecationWarning)
-    warnings.filterwarnings("once", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "expert"
@@ -74,10 +74,10 @@ def silentMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    warnings.filterwarnings("ignore", category=UserWarning)  # first: the next ones are more specific and prevail
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("ignore", category=ExpertNote)
     warnings.filterwarnings("ignore", category=DeprecationWarning)
-    warnings.filterwarnings("ignore", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "silent"
-- 
2.43.0


From 92a123b265d21263898634770e18c464fa232b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 28/65] fix: preferences were lost when a write was interrupted
 or another Preferences had written meanwhile, and deletions were not kept

---
 raytracing/preferences.py | 80 ++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..57a6e9e 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -1,10 +1,11 @@
 import os
 import json
 import platform
+import tempfile
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
+        super().__init__()
 
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
@@ -26,39 +27,72 @@ class Preferences(dict):
 
         self.path = os.path.join(prefDir, prefFilename)
         self.readFromDisk()
+        self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
-        for k, v in dict(*args, **kwargs).items():
-            self[k] = v
+        newValues = dict(*args, **kwargs)
+        if newValues:
+            self._replaceWith({**self._contentOfFile(), **newValues})
+
+    def get(self, key, default=None):
+        self.readFromDisk()
+        return super().get(key, default)
+
+    def __contains__(self, key):
+        self.readFromDisk()
+        return super().__contains__(key)
 
     def __getitem__(self, key):
         self.readFromDisk()
         return super().__getitem__(key)
 
     def __setitem__(self, key, value):
-        super().__setitem__(key, value)
-        self.writeToDisk()
+        self.update({key: value})
+
+    def __delitem__(self, key):
+        content = self._contentOfFile()
+        del content[key]
+        self._replaceWith(content)
 
     def resetPreferences(self):
-        try:
-            os.remove(self.path)
-        except Exception as err:
-            pass
-        self.clear()
-        self.writeToDisk()
+        self._replaceWith({})
 
     def readFromDisk(self):
-        if os.path.exists(self.path):
-            with open(self.path, "r+") as prefFile:
-                try:
-                    data = json.load(prefFile)
-                except Exception as err:
-                    data = dict()
-            self.update(data)
-        else:
-            self.clear()
-            self.writeToDisk()
+        try:
+            content = self._contentOfFile()
+            if not os.path.exists(self.path):
+                self._replaceWith(content)
+        except OSError:
+            # Cannot be read or created now: we keep what we have in memory
+            return
+        super().clear()
+        super().update(content)
 
     def writeToDisk(self):
-        with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+        self._replaceWith(dict(self))
+
+    def _contentOfFile(self) -> dict:
+        try:
+            with open(self.path, "r") as prefFile:
+                content = json.load(prefFile)
+        except (FileNotFoundError, ValueError, RecursionError):
+            # No file, or not a complete JSON document
+            content = {}
+        return content if isinstance(content, dict) else {}
+
+    def _replaceWith(self, content: dict):
+        """ The file is replaced in a single step: it is always complete, even if we are interrupted. """
+        text = json.dumps(content)
+        path = os.path.realpath(self.path)
+        fd, tempPath = tempfile.mkstemp(dir=os.path.dirname(path), prefix=os.path.basename(path))
+        try:
+            with os.fdopen(fd, "w") as tempFile:
+                tempFile.write(text)
+                tempFile.flush()
+                os.fsync(fd)
+            os.replace(tempPath, path)
+        except BaseException:
+            os.remove(tempPath)
+            raise
+        super().clear()
+        super().update(content)
-- 
2.43.0


From dbf61fedc81843bba515f9bfff242698db380ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 29/65] fix: the check for a newer version depended on the
 order in which PyPI lists the releases

---
 raytracing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 8203040..469ef70 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -246,7 +246,7 @@ def checkLatestVersion(currentVersion):
         with urllib.request.urlopen(req, timeout=1) as response:
             data = json.load(response)
             versions = [ Version(version) for version in data["releases"].keys() ]
-            latestVersion = versions[-1]
+            latestVersion = max(versions)
             if Version(currentVersion) < latestVersion:
                 print("Latest version {0} available on PyPi (you are using {1}).".format(latestVersion, currentVersion))
                 print("run `pip install --upgrade raytracing` to update.")
-- 
2.43.0


From 4f0a31912434d88309ae0c359e3ba1a95af7be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 30/65] fix: the package could not be imported with some
 preferences files, and did not check versions every day

---
 raytracing/__init__.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index fc450b2..de10772 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -70,28 +70,27 @@ import time
 import tempfile
 
 def lastCheckMoreThanADay():
-    if "lastVersionCheck" in prefs:
-        isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
-        then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
+    try:
+        then = datetime.fromisoformat(prefs["lastVersionCheck"])
         difference = datetime.now() - then
-        if difference.days > 1:
-            return True
-        else:
-            return False
-    else:
+    except (KeyError, TypeError, ValueError):
+        # Never checked, or not a date we know how to read
         return True
+    return difference.days >= 1
 
 
 prefs = Preferences()
 if lastCheckMoreThanADay():
     checkLatestVersion(currentVersion=__version__)
-    prefs["lastVersionCheck"] = datetime.now().isoformat()
+    try:
+        prefs["lastVersionCheck"] = datetime.now().isoformat()
+    except OSError:
+        pass
 
-if "RAYTRACING_EXPERT" in os.environ:
-    prefs["mode"] = "expert"
-    
 try:
-    if "mode" in prefs:
+    if "RAYTRACING_EXPERT" in os.environ:
+        expertMode(saveToPrefs=True)
+    elif "mode" in prefs:
         if prefs["mode"] == "silent":
             silentMode()
         elif prefs["mode"] == "expert":
@@ -101,8 +100,8 @@ try:
     else:
         beginnerMode(saveToPrefs=True)
 
-except Exception as err:
-    beginnerMode(saveToPrefs=True)
+except OSError:
+    # The mode is set, but could not be saved
     pass
 
 
-- 
2.43.0


From 3657d0d29ca80dea22eb560a5fc580cbfc1905c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 31/65] fix: modifying the heights, angles or histograms
 returned by Rays modified its later answers

---
 raytracing/rays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 35e7db5..f20f262 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -117,7 +117,7 @@ class Rays:
         if self._yValues is None:
             self._yValues = list(map(lambda x: x.y, self))
 
-        return self._yValues
+        return self._yValues[:]
 
     @property
     def thetaValues(self):
@@ -127,7 +127,7 @@ class Rays:
         if self._thetaValues is None:
             self._thetaValues = list(map(lambda x: x.theta, self))
 
-        return self._thetaValues
+        return self._thetaValues[:]
 
     def rayCountHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -202,7 +202,7 @@ class Rays:
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
 
-        return (self._xValuesCountHistogram, self._yHistogram)
+        return (self._xValuesCountHistogram[:], self._yHistogram[:])
 
     def rayAnglesHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -279,7 +279,7 @@ class Rays:
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
 
-        return (self._xValuesAnglesHistogram, self._thetaHistogram)
+        return (self._xValuesAnglesHistogram[:], self._thetaHistogram[:])
 
     def display(self, title="Intensity profile", showTheta=True):  # pragma: no cover
         """This function plots the intensity profiles of a list of rays.
-- 
2.43.0


From 69dd9eadb24e7ac4b129800cb08684576e87e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 32/65] fix: UniformRays with a single height used 0 even
 outside of the requested range

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index f20f262..5f1ab16 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -543,7 +543,7 @@ class UniformRays(Rays):
         rays = []
 
         if self.M == 1:
-            heights = [0]
+            heights = [(self.yMin + self.yMax) / 2]
         else:
             heights = np.linspace(self.yMin, self.yMax, self.M, endpoint=True)
 
-- 
2.43.0


From 131b095e1671239d2568758393e4905e45573247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 33/65] fix: a Zemax file designed at 550 nm could not be read

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..45252d8 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -57,7 +57,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From da6bd57bf8f85dad13289c9f03049ff083bf5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 34/65] fix: a system could not be cut exactly in front of a
 generic element with a length

---
 raytracing/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index bea2d55..fc57012 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -533,6 +533,9 @@ class Matrix(object):
             return self
         elif self.L <= distance:
             return self
+        elif distance == 0:
+            # Nothing of this element lies in front of its entrance
+            return Matrix(frontIndex=self.frontIndex, backIndex=self.frontIndex)
         else:
             raise TypeError("Subclass of non-null physical length must override transferMatrix()")
 
-- 
2.43.0


From 60fe06300b0f15aab6f89563ca1826a899b2798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 35/65] fix: ImagingPath.displayWithObject() changed the height
 of the object of the path

---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index ece7390..04d325a 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -1065,6 +1065,7 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        savedObjectHeight = self._objectHeight
         self._objectHeight = diameter
         if fanAngle is None:
             fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
@@ -1073,3 +1074,4 @@ class ImagingPath(MatrixGroup):
         self.display(rays=rays, raysList=None, removeBlocked=removeBlocked, comments=comments,
                      onlyPrincipalAndAxialRays=False,
                      limitObjectToFieldOfView=False)
+        self._objectHeight = savedObjectHeight
-- 
2.43.0


From 9bc21901ca34fee306ea855a6e0c2072246a5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 36/65] fix: elements without vertices could not be displayed

---
 raytracing/graphics.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index a091f2b..43a736d 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -174,8 +174,12 @@ class MatrixGraphic(Graphic):
 
     @property
     def verticesPoints(self) -> List[Point]:
-        return [Point(self.x + self.matrix.frontVertex, y=self.halfHeight * 0.1, text='$V_f$', color='0.5'),
-                Point(self.x + self.matrix.backVertex, y=self.halfHeight * 0.1, text='$V_b$', color='0.5')]
+        points = []
+        if self.matrix.frontVertex is not None:
+            points.append(Point(self.x + self.matrix.frontVertex, y=self.halfHeight * 0.1, text='$V_f$', color='0.5'))
+        if self.matrix.backVertex is not None:
+            points.append(Point(self.x + self.matrix.backVertex, y=self.halfHeight * 0.1, text='$V_b$', color='0.5'))
+        return points
 
     @property
     def pointsOfInterest(self):
@@ -223,14 +227,16 @@ class MatrixGraphic(Graphic):
 
         # Front vertex to front focal spot (front focal length or FFL)
         h = halfHeight * 0.7
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.frontVertex, h), B=(F1, h)))
-        self.points.append(Point((self.matrix.frontVertex + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL),
-                                 hasMarker=False))
+        if FFL is not None:
+            self.annotations.append(ArrowAnnotation(A=(self.matrix.frontVertex, h), B=(F1, h)))
+            self.points.append(Point((self.matrix.frontVertex + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL),
+                                     hasMarker=False))
 
         # Back vertex to back focal spot (back focal length or BFL)
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.backVertex, -h), B=(F2, -h)))
-        self.points.append(Point((self.matrix.backVertex + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL),
-                                 hasMarker=False))
+        if BFL is not None:
+            self.annotations.append(ArrowAnnotation(A=(self.matrix.backVertex, -h), B=(F2, -h)))
+            self.points.append(Point((self.matrix.backVertex + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL),
+                                     hasMarker=False))
 
     def display(self):
         """ Display this component, without any ray tracing but with
@@ -250,10 +256,6 @@ class MatrixGraphic(Graphic):
             :width: 70%
             :align: center
 
-
-        Notes
-        -----
-        If the component has no power (i.e. C == 0) this will fail.
         """
         fig = self.createFigure()
         fig.display2D(interactive=False)
-- 
2.43.0


From 21bf531489d7a9ec7a3039fe0a4866ff3a9bb6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 37/65] fix: an ImagingPath without length could not be
 displayed

---
 raytracing/imagingpath.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 04d325a..06a4f85 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -1005,7 +1005,7 @@ class ImagingPath(MatrixGroup):
         if 'ObjectRays' not in [type(rays).__name__ for rays in raysList]:
             fanAngle = self.fanAngle
             if fanAngle is None:
-                fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+                fanAngle = self._defaultFanAngle()
             defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
                                        halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
             raysList.append(defaultObject)
@@ -1020,6 +1020,12 @@ class ImagingPath(MatrixGroup):
         self.figure.designParams = savedDesignParams
         self.design = self.figure.design
 
+    def _defaultFanAngle(self):
+        """ The angle for the rays to fill the figure, or 0.1 rad when the path has no length. """
+        if self.L == 0:
+            return 0.1
+        return np.tan(self.figure.displayRange / 2 / self.L / 5)
+
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
         """
@@ -1068,7 +1074,7 @@ class ImagingPath(MatrixGroup):
         savedObjectHeight = self._objectHeight
         self._objectHeight = diameter
         if fanAngle is None:
-            fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+            fanAngle = self._defaultFanAngle()
         rays = ObjectRays(diameter, halfAngle=fanAngle, H=fanNumber, T=rayNumber)
 
         self.display(rays=rays, raysList=None, removeBlocked=removeBlocked, comments=comments,
-- 
2.43.0


From 2c7bfa90347553a23e0399e66f4849ee49adb007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 38/65] fix: the f-number of a system without power and without
 a finite pupil was nan

---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 06a4f85..773592a 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -374,6 +374,8 @@ class ImagingPath(MatrixGroup):
         (focalFront, focalBack) = self.effectiveFocalLengths()
         if pupilDiameter is None:
             return None
+        if not np.isfinite(focalFront):
+            return float("+inf")
 
         return focalFront/pupilDiameter
 
-- 
2.43.0


From 278c91b7d6a511a934b7196f92aeae2baa778875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 39/65] fix: the optical invariant of an element with a length
 ignored its effect on the rays it blocks

---
 raytracing/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index fc57012..d7abe41 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -602,8 +602,8 @@ class Matrix(object):
 
         matrix = self.transferMatrix(upTo=z)
 
-        outputRay1 = matrix.traceThrough(ray1)
-        outputRay2 = matrix.traceThrough(ray2)
+        outputRay1 = matrix.mul_ray(ray1)
+        outputRay2 = matrix.mul_ray(ray2)
 
         return matrix.backIndex * (outputRay1.theta * outputRay2.y - outputRay1.y * outputRay2.theta)
 
-- 
2.43.0


From ad61d9627512bfd892d88e141f78fd4a0cefc4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 40/65] fix: a refused LaserCavity.appendElementsInReverse()
 had already added some of the elements

---
 raytracing/lasercavity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 80def18..3310536 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -54,8 +54,7 @@ class LaserCavity(LaserPath):
         else:
             forwardElements = self.elements[firstElement:]
             
-        for element in reversed(forwardElements):
-            self.append(element)
+        self._replaceElements(self.elements + forwardElements[::-1])
 
 
     def eigenModes(self):
-- 
2.43.0


From 1af328a6b6b801a704a8a253f49119755eae862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 41/65] fix: rays appended to or loaded in LampRays that are
 not random were ignored

---
 raytracing/rays.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 5f1ab16..6c35488 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -921,6 +921,7 @@ class LampRays(RandomUniformRays, Rays):
 
     """
     def __init__(self, diameter, NA=1.0, N=100, T=10, H=None, random=False, z=0, rayColors=None, label=None):
+        self.isRandom = random
         if random:
             RandomUniformRays.__init__(self, yMax=diameter/2, yMin=-diameter/2, thetaMax=NA, thetaMin=-NA, maxCount=N)
         else:
@@ -942,3 +943,13 @@ class LampRays(RandomUniformRays, Rays):
         self.z = z
         self.rayColors = rayColors
         self.label = label
+
+    # When the lamp is not random, its rays are all there already: it is a plain list of rays
+    def __len__(self) -> int:
+        return RandomUniformRays.__len__(self) if self.isRandom else Rays.__len__(self)
+
+    def __getitem__(self, item):
+        return RandomUniformRays.__getitem__(self, item) if self.isRandom else Rays.__getitem__(self, item)
+
+    def __next__(self) -> Ray:
+        return RandomUniformRays.__next__(self) if self.isRandom else Rays.__next__(self)
-- 
2.43.0


From 49e6cec1ec7a2e5f4f10e8829a5f2713344f6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 42/65] fix: traceManyThroughInParallel never finished when a
 worker process died

---
 raytracing/matrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index d7abe41..eac042c 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import concurrent.futures
 import copy
 import multiprocessing
 import sys
@@ -887,8 +888,9 @@ class Matrix(object):
 
             manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]
 
-            with multiprocessing.Pool(processes=processes) as pool:
-                outputRays = pool.starmap(self.traceManyThrough, manyInputRays)
+            # Contrary to multiprocessing.Pool, which waits forever, this fails when a process dies
+            with concurrent.futures.ProcessPoolExecutor(max_workers=processes) as pool:
+                outputRays = list(pool.map(self.traceManyThrough, *zip(*manyInputRays)))
 
             outputRaysList = []
             for rays in outputRays:
-- 
2.43.0


From 8de267abb5d18c8906779098c03932749af7a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 43/65] fix: preferences removed with pop(), popitem() or
 clear(), or added with setdefault() or |=, were not kept

---
 raytracing/preferences.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 57a6e9e..ad81a8c 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -54,6 +54,30 @@ class Preferences(dict):
         del content[key]
         self._replaceWith(content)
 
+    def pop(self, key, *default):
+        content = self._contentOfFile()
+        value = content.pop(key, *default)
+        self._replaceWith(content)
+        return value
+
+    def popitem(self):
+        content = self._contentOfFile()
+        item = content.popitem()
+        self._replaceWith(content)
+        return item
+
+    def clear(self):
+        self._replaceWith({})
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def resetPreferences(self):
         self._replaceWith({})
 
-- 
2.43.0


From 8c4c2524e7e760f0c9da08c3857b1f1353822d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 44/65] fix: the glass N-SF6 had the indices and Abbe number of
 another glass, SF1

---
 raytracing/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..89c8caa 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -229,12 +229,12 @@ class N_SF6(Material):
         if wavelength > 10 or wavelength < 0.01:
             raise ValueError("Wavelength must be in microns")
         x = wavelength
-        n=(1+1.55912923/(1-0.0121481001/x**2)+0.284246288/(1-0.0534549042/x**2)+0.968842926/(1-112.174809/x**2))**.5
+        n=(1+1.77931763/(1-0.0133714182/x**2)+0.338149866/(1-0.0617533621/x**2)+2.08734474/(1-174.01759/x**2))**.5
         return n
 
     @classmethod
     def abbeNumber(cls):
-        return 29.51
+        return 25.36
 
 
 class N_SF6HT(Material):
-- 
2.43.0


From d98abc74a882464e4ef2dcb54951645c347a72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 45/65] fix: a glass that a user defines, or spelled with
 underscores, was not found, and E_BAF11 could be listed twice

---
 raytracing/materials.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 89c8caa..9d9d09e 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -77,12 +77,13 @@ class Material:
     @classmethod
     def all(cls):
         """ Returns the class names of all materials implemented. """
-        materials = []
-        for materialClass in cls.__subclasses__():
-            matchObj = re.match(r".+\.(\S+)'", "{0}".format(materialClass))
-            if matchObj is not None:
-                materials.extend(matchObj.groups(1))
-        return materials
+        return list(cls._allClasses())
+
+    @classmethod
+    def _allClasses(cls):
+        """ All materials implemented, by class name, those that users define included.
+        When a name is defined twice, the last definition is the one that counts. """
+        return {materialClass.__name__: materialClass for materialClass in cls.__subclasses__()}
 
     def __str__(self):
         """ Print the name of the class as a string """
@@ -100,12 +101,11 @@ class Material:
         if name is None:
             return Air()
 
-        simplifiedName = name.replace('-','')
-        for className in Material.all():
+        simplifiedName = name.replace('-','').replace('_','')
+        for className, materialClass in Material._allClasses().items():
             shortName = className.replace('_','')
             if areTheSame(simplifiedName, shortName):
-                cls = globals()[className]
-                return cls()
+                return materialClass()
 
         raise ValueError("The requested material '{0}' is not recognized \
 in the list of materials of raytracing: {1}.  You need to implement it as a \
@@ -115,8 +115,8 @@ subclass of Material, see materials.py for examples.".format(name, Material.all(
     def findByIndex(cls, n, wavelength, tolerance=0.05):
         """ Identify the material based on a index value and a tolerance."""
         match = []
-        for materialName in cls.all():
-            mat = globals()[materialName]()
+        for materialName, materialClass in cls._allClasses().items():
+            mat = materialClass()
             nmat = mat.n(wavelength)
             if abs(n-nmat) < tolerance:
                 match.append((materialName, nmat, mat.abbeNumber()))
-- 
2.43.0


From d88c7bdf55cf22310423bbc0ccaddeb096a91338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 46/65] fix: a Zemax file without units could not be read

---
 raytracing/zemax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 45252d8..6494544 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -249,6 +249,8 @@ class ZMXReader:
         for line in self.lines:
             if areTheSame(line["NAME"],key):
                 values.append(line["PARAM"][index])
+        if len(values) == 0:
+            return None
         if len(values) == 1:
             return values[0]
 
-- 
2.43.0


From b650250728f7bae2e452bdf3f87963f4da5a0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 47/65] fix: the edge thickness of a lens with a flat surface
 was never compared with the one stated

---
 raytracing/specialtylenses.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 3a65f99..2a3c63e 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -31,6 +31,15 @@ class CompoundLens(MatrixGroup):
         self.url = url
         self.wavelengthRef = wavelengthRef
 
+    @staticmethod
+    def edgeSag(R, h):
+        """ Distance along the axis from the vertex of a surface of radius R
+        to its edge, at a height h. A flat surface has none.
+        """
+        if math.isinf(R):
+            return 0.0
+        return R * (1.0 - math.cos(math.asin(h / abs(R))))
+
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
 
@@ -214,11 +223,9 @@ class AchromatDoubletLens(CompoundLens):
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-        phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex + self.edgeSag(self.R1, h)
 
-        phi3 = math.asin(h / abs(self.R3))
-        corner3 = self.backVertex + self.R3 * (1.0 - math.cos(phi3))
+        corner3 = self.backVertex + self.edgeSag(self.R3, h)
         if abs(((corner3 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Doublet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner3 - corner1, self.te, self.label)
@@ -325,11 +332,9 @@ class SingletLens(CompoundLens):
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-        phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex + self.edgeSag(self.R1, h)
 
-        phi2 = math.asin(h / abs(self.R2))
-        corner2 = self.backVertex + self.R2 * (1.0 - math.cos(phi2))
+        corner2 = self.backVertex + self.edgeSag(self.R2, h)
         if abs(((corner2 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Singlet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner2 - corner1, self.te, self.label)
-- 
2.43.0


From e2efb46f34133dd1a37bf3eea0ee84bfdee38f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 48/65] fix: a doublet or a singlet without power could not be
 made

---
 raytracing/specialtylenses.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 2a3c63e..9b8b4ed 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -217,6 +217,8 @@ class AchromatDoubletLens(CompoundLens):
                   "expected {1:.4}".format(f, fa, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
+        if BFL is None:
+            BFL = float("+Inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
                   "expected {1:.4}".format(BFL, fb, self.label)
@@ -326,6 +328,8 @@ class SingletLens(CompoundLens):
                   "expected {1:.4}".format(f_f, fb, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
+        if BFL is None:
+            BFL = float("+Inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
                   "expected {1:.4}".format(BFL, fb, self.label)
-- 
2.43.0


From e7e0b2255f67aa9d466f2e8c5041359c477a25bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 49/65] fix: the note on the focal length of a singlet gave its
 back focal length as the one expected

---
 raytracing/specialtylenses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 9b8b4ed..851b070 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -325,7 +325,7 @@ class SingletLens(CompoundLens):
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
             msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, fb, self.label)
+                  "expected {1:.4}".format(f_f, f, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if BFL is None:
-- 
2.43.0


From ff19a0b84cf540c9c3cd3f67787f01862ff64644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 50/65] fix: the lenses of Edmund Optics could not be made for
 a wavelength, nor their focal shifts obtained

---
 raytracing/eo.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raytracing/eo.py b/raytracing/eo.py
index d73c401..63ac175 100644
--- a/raytracing/eo.py
+++ b/raytracing/eo.py
@@ -19,12 +19,12 @@ class PN_33_921(AchromatDoubletLens):
         "diameter", "75"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         # PN for Part number
         super(PN_33_921,self).__init__(fa=100.00,fb=78.32, R1=64.67,R2=-64.67, R3=-343.59, 
                                     tc1=26.00, tc2=12.7, te=24.66, n1=1.6700, n2=1.8467, diameter=75,
                                     label="EO #33-921",
-                                    url="https://www.edmundoptics.com/p/75mm-dia-x-100mm-fl-vis-0-coated-achromatic-lens/3374/")
+                                    url="https://www.edmundoptics.com/p/75mm-dia-x-100mm-fl-vis-0-coated-achromatic-lens/3374/", wavelength=wavelength)
 
 class PN_33_922(AchromatDoubletLens):
     """PN_33_922
@@ -45,13 +45,13 @@ class PN_33_922(AchromatDoubletLens):
         "diameter", "75"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         # PN for Part number
         super(PN_33_922,self).__init__(fa=150.00,fb=126.46, R1=92.05,R2=-72.85, R3=-305.87, 
                                     tc1=23.2, tc2=23.1, te=36.01, n1=None, mat1=N_BAK1, n2=None, mat2=N_SF8, diameter=75,
                                     label="EO #33-922",
                                     url="https://www.edmundoptics.com/p/75mm-dia-x-150mm-fl-vis-0-coated-achromatic-lens/3376/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
 
 class PN_88_593(AchromatDoubletLens):
     """PN_88_593
@@ -72,11 +72,11 @@ class PN_88_593(AchromatDoubletLens):
         "diameter", "75"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         super(PN_88_593,self).__init__(fa=200.00,fb=187.69, R1=118.81, R2=-96.37, R3=-288.97, 
                                     tc1=17.94, tc2=6.00, te=15.42, n1=1.5168, n2=1.6727, diameter=75,
 									label="EO #88-593",
-                                    url="https://www.edmundoptics.com/p/75mm-dia-x-200mm-fl-vis-0deg-coated-achromatic-lens/30844/")
+                                    url="https://www.edmundoptics.com/p/75mm-dia-x-200mm-fl-vis-0deg-coated-achromatic-lens/30844/", wavelength=wavelength)
 
 class PN_85_877(AchromatDoubletLens):
     """PN_85_877
@@ -97,9 +97,9 @@ class PN_85_877(AchromatDoubletLens):
         "diameter", "6.25"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         super(PN_85_877,self).__init__(fa=-10.0,fb=-11.92, R1=-6.55, R2=5.10, R3=89.10, 
                                     tc1=1.0, tc2=2.5, te=4.2, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF10, diameter=6.25,
                                     label="EO #85-877",
                                     url="https://www.edmundoptics.com/p/625mm-dia-x10mm-fl-vis-nir-coated-negative-achromatic-lens/28478/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
-- 
2.43.0


From 267bf8c67ed5857f5a22d7a20b76d4a8dd6a32a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 51/65] fix: a lens whose focal length is stated as a whole
 number could not be made when it misses it

---
 raytracing/specialtylenses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 851b070..7257080 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -214,14 +214,14 @@ class AchromatDoubletLens(CompoundLens):
         (f, f) = self.focalDistances()
         if abs((f - fa) / fa) > 0.01:
             msg = "Doublet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f, fa, self.label)
+                  "expected {1:.4g}".format(f, fa, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if BFL is None:
             BFL = float("+Inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
@@ -325,14 +325,14 @@ class SingletLens(CompoundLens):
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
             msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, f, self.label)
+                  "expected {1:.4g}".format(f_f, f, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if BFL is None:
             BFL = float("+Inf")
         if abs((BFL - fb) / fb) > 0.01:
             msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-- 
2.43.0


From e4c0df7b17bcc7b8265adec0c36754cafacb6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 52/65] fix: elements with a flat surface could not be
 displayed once turned around

---
 raytracing/graphicComponents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index 912a153..a7b4323 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -204,7 +204,7 @@ class Surface(Component):
         h = self.halfHeight
         v1 = self.x
 
-        if self.surface.R == float("+inf"):
+        if math.isinf(self.surface.R):
             return [BezierCurve([(v1, -h), (v1, h)])]
 
         R1 = self.surface.R
@@ -258,7 +258,7 @@ class SurfacePair(Component):
             self.corners = [corner]
             return [BezierCurve([(corner, -h), (v1, 0)]), BezierCurve([(v1, 0), (corner, h)])]
 
-        if self.surfaceA.R == float("+inf"):
+        if math.isinf(self.surfaceA.R):
             self.corners = [v1]
             return [BezierCurve([(v1, -h), (v1, h)])]
 
@@ -293,7 +293,7 @@ class SurfacePair(Component):
                     BezierCurve([(v2, 0), (corner2, -h)]),
                     BezierCurve([(corner2, -h), (self.corners[0], -h)])]
 
-        if self.surfaceB.R == float("+inf"):
+        if math.isinf(self.surfaceB.R):
             self.corners.append(v2)
             return [BezierCurve([(self.corners[0], h), (v2, h)]),
                     BezierCurve([(v2, h), (v2, -h)]),
-- 
2.43.0


From d7d4c1128566b37af66d022e437d1ff9047f07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 53/65] fix: of several objects or lamps at the same position,
 only the last one was drawn

---
 raytracing/figure.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index deeee8d..e08ca8c 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -206,17 +206,18 @@ class Figure:
             instance = type(rays).__name__
             if instance == 'ObjectRays':
                 objectKey = kObjectImageZKey.format(rays.z) if rays.z != 0 else kObjectImageKey
+                objectGraphics = self.graphicGroups.setdefault(objectKey, [])
                 if self.path.showObject:
-                    self.graphicGroups[objectKey] = [ObjectGraphic(rays.yMax * 2, x=rays.z,
-                                                                   color=self.designParams['objectColor'],
-                                                                   fill=self.designParams['fillObject'], label=rays.label)]
+                    objectGraphics.append(ObjectGraphic(rays.yMax * 2, x=rays.z,
+                                                        color=self.designParams['objectColor'],
+                                                        fill=self.designParams['fillObject'], label=rays.label))
                 if self.path.showImages:
-                    self.graphicGroups[objectKey].extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
-                                                                                        color=self.designParams['imageColor'],
-                                                                                        fill=self.designParams['fillImage']))
+                    objectGraphics.extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
+                                                                         color=self.designParams['imageColor'],
+                                                                         fill=self.designParams['fillImage']))
             if instance == 'LampRays':
                 lampKey = 'Lamp (z={0:.2f})'.format(rays.z) if rays.z != 0 else kLampKey
-                self.graphicGroups[lampKey] = [LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label)]
+                self.graphicGroups.setdefault(lampKey, []).append(LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label))
 
     def setLinesFromRaysList(self):
         for rays in self.raysList:
@@ -227,13 +228,13 @@ class Figure:
                 if rays.z == 0:
                     self.lineGroups[kObjectImageKey].extend(rayTrace)
                 else:
-                    self.lineGroups[kObjectImageZKey.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault(kObjectImageZKey.format(rays.z), []).extend(rayTrace)
             elif instance == 'LampRays':
                 self.designParams['showObjectImage'] = False
                 if rays.z == 0:
                     self.lineGroups[kLampKey].extend(rayTrace)
                 else:
-                    self.lineGroups['Lamp (z={0:.2f})'.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault('Lamp (z={0:.2f})'.format(rays.z), []).extend(rayTrace)
             elif instance not in self.lineGroups.keys():
                 self.lineGroups[instance] = rayTrace
             else:
-- 
2.43.0


From 7b0da90406f87835a8dab845ac91689b82fab396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 54/65] fix: rays that all start on the axis could not be
 displayed with a single color

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index e08ca8c..5d24666 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -424,7 +424,7 @@ class Figure:
             else:
                 colorIndex = int(np.round(
                     (y[0] + maxHeight) / (maxHeight * 2) * (len(colors) - 1)))
-                colorIndex = colorIndex % len(colors)
+            colorIndex = colorIndex % len(colors)
 
             line = Line(np.asarray(x) + dz, y, color=colors[colorIndex], lineWidth=lineWidth, label='ray')
             lines.append(line)
-- 
2.43.0


From 92b6c309ef139c68881609bee9b96b4cd261117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 55/65] fix: rayColors could not be one color, such as 'red' or
 (1, 0, 0)

---
 raytracing/figure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 5d24666..3e14320 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -1,4 +1,5 @@
 from matplotlib.widgets import CheckButtons
+from matplotlib.colors import is_color_like
 import matplotlib.pyplot as plt
 from .graphics import *
 from .ray import Ray
@@ -390,6 +391,9 @@ class Figure:
             elif type(rays).__name__ == 'LampRays':
                 colors = self.designParams['lampRayColors']
 
+        if is_color_like(colors):
+            colors = [colors]
+
         if dz != 0:
             forwardPath = self.path.subPath(zStart=dz)
             backwardPath = self.path.subPath(zStart=dz, backwards=True)
-- 
2.43.0


From edd490ed23c0ab9d9de8d3fa6f0f58b2f15e2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 56/65] fix: the color of ObjectRays was ignored

---
 raytracing/figure.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 3e14320..07b9449 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -208,14 +208,17 @@ class Figure:
             if instance == 'ObjectRays':
                 objectKey = kObjectImageZKey.format(rays.z) if rays.z != 0 else kObjectImageKey
                 objectGraphics = self.graphicGroups.setdefault(objectKey, [])
+                objectColor, fillObject = self.designParams['objectColor'], self.designParams['fillObject']
+                imageColor, fillImage = self.designParams['imageColor'], self.designParams['fillImage']
+                if rays.color is not None:
+                    objectColor, fillObject = rays.color, True
+                    imageColor, fillImage = rays.color, False
                 if self.path.showObject:
-                    objectGraphics.append(ObjectGraphic(rays.yMax * 2, x=rays.z,
-                                                        color=self.designParams['objectColor'],
-                                                        fill=self.designParams['fillObject'], label=rays.label))
+                    objectGraphics.append(ObjectGraphic(rays.yMax * 2, x=rays.z, color=objectColor,
+                                                        fill=fillObject, label=rays.label))
                 if self.path.showImages:
                     objectGraphics.extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
-                                                                         color=self.designParams['imageColor'],
-                                                                         fill=self.designParams['fillImage']))
+                                                                         color=imageColor, fill=fillImage))
             if instance == 'LampRays':
                 lampKey = 'Lamp (z={0:.2f})'.format(rays.z) if rays.z != 0 else kLampKey
                 self.graphicGroups.setdefault(lampKey, []).append(LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label))
-- 
2.43.0


From 4803810d0e089ad7b143dfdb6da8213c54048d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 57/65] fix: a path without a finite entrance pupil could not
 be displayed with showEntrancePupil

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 07b9449..a77c23b 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -173,7 +173,7 @@ class Figure:
 
         if self.path.showEntrancePupil:
             (pupilPosition, pupilDiameter) = self.path.entrancePupil()
-            if pupilPosition is not None:
+            if pupilPosition is not None and np.isfinite(pupilPosition) and np.isfinite(pupilDiameter):
                 self.graphicGroups[kElementsKey].append(self.graphicOfEntrancePupil)
 
         if self.path.showPointsOfInterest:
-- 
2.43.0


From 502e709371779054f00b2900de59a532b762a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 58/65] fix: the display of a group did not show its focal
 points, vertices and principal planes

---
 raytracing/graphics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 43a736d..3e9aaa8 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -266,7 +266,8 @@ class MatrixGraphic(Graphic):
         self.points.extend(self.cardinalPoints)
         if self.matrix.L != 0:
             self.points.extend(self.verticesPoints)
-        self.points.extend(self.pointsOfInterest)
+        if not self.displayComponents:
+            self.points.extend(self.pointsOfInterest)
 
         self.addPrincipalPlanes()
 
@@ -278,6 +279,9 @@ class MatrixGraphic(Graphic):
         if self.displayComponents:
             path.elements = self.matrix
             mplFigure.setGraphicsFromOpticalPath()
+            mplFigure.points.extend(self.points)
+            mplFigure.lineGroups['Principal planes'] = self.lines
+            mplFigure.annotations.extend(self.annotations)
         mplFigure.create(title="Element properties")
         return mplFigure
 
-- 
2.43.0


From 57e50c2a9b19b2af55b9c607c93e4ca559755e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 59/65] fix: generic elements were drawn at twice their
 distance

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 3e9aaa8..9e74226 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -154,7 +154,7 @@ class MatrixGraphic(Graphic):
         if halfHeight == float("+Inf"):
             halfHeight = self.matrix.displayHalfHeight()
 
-        return [Rectangle(xy=(self.x, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
+        return [Rectangle(xy=(0, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
 
     @property
     def apertureComponents(self):
-- 
2.43.0


From 2b1b6e6e05a18168db6b1702ed231260cfbb6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 60/65] fix: the apertures of an objective were drawn away from
 it, both with the size of its back aperture

---
 raytracing/graphics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 9e74226..346c4d4 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -454,8 +454,10 @@ class ObjectiveGraphic(MatrixGroupGraphic):
         z = 0
         for element in self.matrixGroup.elements:
             if element.apertureDiameter != float('+Inf'):
-                halfHeight = self.matrix.apertureDiameter / 2.0
-                components.append(ApertureBars(x=z, y=halfHeight, width=element.L))
+                # An aperture without width would be rescaled with the figure, and its position with it
+                width = element.L or L / 50
+                components.append(ApertureBars(x=z + element.L / 2 - width / 2,
+                                               y=element.apertureDiameter / 2.0, width=width))
             z += element.L
 
         self.points = self.cardinalPoints
-- 
2.43.0


From 8d249dc4818fbec1825c7cf903fcfd4bdedf81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 61/65] fix: the efficiency report failed when no ray went
 through, and overlooked a single vignetted ray

---
 raytracing/imagingpath.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 773592a..ad1fd16 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -907,8 +907,11 @@ class ImagingPath(MatrixGroup):
         #print(" For 100% efficiency, the system would require an increase of {0:.2f}⨉ in detection NA with same FOV".format(Is/Iap))
         print("\nVignetting")
         print("----------")
-        print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
-        if len(vignettedBlocked) >= 2:
+        if len(vignettedBlocked) + len(notBlocked) == 0:
+            print("  No ray of the source is within the field of view and the NA of this system")
+        else:
+            print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
+        if len(vignettedBlocked) >= 1:
             print("  Loss to vignetting: {0:.1f}%".format(100*len(vignettedBlocked)/(len(vignettedBlocked)+len(notBlocked))))
             print("  Vignetting is due to blockers at positions: {0}".format(set(vignettePositions)))
         else:
@@ -920,12 +923,13 @@ class ImagingPath(MatrixGroup):
         axis1.add_patch(p.Rectangle((-1,-1),2, 2, color=(0, 1.0, 0, 0.5), lw=3, fill=False,
                               transform=axis1.transData, clip_on=True))
 
-        (x,y) = list(zip(*notBlocked))
-        plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) >= 1:
+            (x,y) = list(zip(*notBlocked))
+            plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
+        if len(vignettedBlocked) >= 1:
             (x,y) = list(zip(*vignettedBlocked))
             plt.scatter(x,y, color=(1,0,0), marker='.',label="Vignetted")
-        if len(expectedBlocked) >= 2:
+        if len(expectedBlocked) >= 1:
             (x,y) = list(zip(*expectedBlocked))
             plt.scatter(x,y, color=(0.5,0.5,0.5), marker='.',label="Blocked")
         axis1.set_xlabel("$B$\n\nFigure: Each point is a ray emitted from the source.", fontsize=13*fontScale)
-- 
2.43.0


From 83fd5ff0c067d7d2b94e8f0b7959d9941647597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 62/65] fix: the efficiency report compared the invariant of
 the system with one without the index of the medium

---
 raytracing/imagingpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index ad1fd16..1aaa08c 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -869,7 +869,7 @@ class ImagingPath(MatrixGroup):
                                  thetaMax=maxAngle,
                                  thetaMin=-maxAngle,
                                  maxCount=nRays)
-        Is = maxHeight * maxAngle
+        Is = maxHeight * self.frontIndex * maxAngle
 
         expectedBlocked = []
         notBlocked = []
@@ -892,12 +892,12 @@ class ImagingPath(MatrixGroup):
 
         print("Optical System Properties for {0}".format(self.label))
         print("---------------------------------------------------")
-        print(" Lagrange invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ 1/2 FOV ⨉ NA".format(Iap, principal.y, axial.theta))
+        print(" Lagrange invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ 1/2 FOV ⨉ NA".format(Iap, principal.y, self.frontIndex * axial.theta))
         print(" Object-side NA is {0:.2f}, and f/# is {1:.2f} ".format(self.NA(), self.fNumber()))
         print(" Field of view is {0:.2f} mm".format(self.fieldOfView()))        
         print("\nSource Properties")
         print("-------------------")
-        print(" Object/source equivalent invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ height ⨉ half-angle".format(Is, maxHeight, maxAngle))
+        print(" Object/source equivalent invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ height ⨉ index ⨉ half-angle".format(Is, maxHeight, self.frontIndex * maxAngle))
         print("\nEfficiency")
         print("----------")
         print(" Collection efficiency from Monte Carlo: {0:.1f}% of ±{2:.2f} radian, over field diameter of {1:.1f} mm".format(100*len(notBlocked)/sourceRays.maxCount, 2*maxHeight, maxAngle))
-- 
2.43.0


From 8c3269930222028d85503aa7d2c89742742ebde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 63/65] fix: check boxes of a figure beyond the sixth did not
 respond

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index a77c23b..10233e0 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -718,7 +718,7 @@ class MplFigure(Figure):
         subAxes = plt.axes((0.81, 0.4, 0.1, 0.5), frameon=False, anchor='NW')
 
         nBoxes = len(visibility)
-        heightStep = 0.15
+        heightStep = min(0.15, 0.85 / max(nBoxes, 1))
         offsets = [(0.11, 0.85 - heightStep * i) for i in range(nBoxes)]
         checkProps = {'sizes': [100] * nBoxes, 'offsets': offsets}
         self.checkBoxes = CheckButtons(
-- 
2.43.0


From 2fbef7d1b2251b1567958d91f507a02ae1ea615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 64/65] fix: python -m raytracing ran the last examples for
 numbers below 1

---
 raytracing/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raytracing/__main__.py b/raytracing/__main__.py
index 85d1e00..25bb142 100644
--- a/raytracing/__main__.py
+++ b/raytracing/__main__.py
@@ -42,7 +42,13 @@ if runExamples == 'all':
 elif runExamples == '':
     runExamples = []
 else:
-    runExamples = [int(y) for y in runExamples.split(',')]
+    try:
+        runExamples = [int(y) for y in runExamples.split(',')]
+    except ValueError:
+        ap.error("the examples must be numbers separated by commas: {0}".format(runExamples))
+    for i in runExamples:
+        if not 1 <= i <= len(examples.short):
+            ap.error("there is no example {0}, only 1 to {1}".format(i, len(examples.short)))
 
 if printClasses:
     printClassHierarchy(Rays)
-- 
2.43.0


From 33f00bef5735bc8630fd9836aea9a068d2455e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 65/65] fix: after a display that could not be completed, a
 path could not be displayed any more

---
 raytracing/imagingpath.py | 40 ++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 1aaa08c..5835b36 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -984,7 +984,20 @@ class ImagingPath(MatrixGroup):
 
         savedDesignParams = self.figure.designParams.copy()
         savedObjectHeight = self._objectHeight
-
+        try:
+            self._displayOnce(rays=rays, raysList=raysList, removeBlocked=removeBlocked, comments=comments,
+                              onlyPrincipalAndAxialRays=onlyPrincipalAndAxialRays,
+                              limitObjectToFieldOfView=limitObjectToFieldOfView,
+                              interactive=interactive, filePath=filePath)
+        finally:
+            # Nothing of this display remains, even when it could not be completed
+            self._objectHeight = savedObjectHeight
+            self.figure = Figure(opticalPath=self)
+            self.figure.designParams = savedDesignParams
+            self.design = self.figure.design
+
+    def _displayOnce(self, rays, raysList, removeBlocked, comments, onlyPrincipalAndAxialRays,
+                     limitObjectToFieldOfView, interactive, filePath):
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
@@ -1021,11 +1034,6 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        self._objectHeight = savedObjectHeight
-        self.figure = Figure(opticalPath=self)
-        self.figure.designParams = savedDesignParams
-        self.design = self.figure.design
-
     def _defaultFanAngle(self):
         """ The angle for the rays to fill the figure, or 0.1 rad when the path has no length. """
         if self.L == 0:
@@ -1078,12 +1086,14 @@ class ImagingPath(MatrixGroup):
         """
 
         savedObjectHeight = self._objectHeight
-        self._objectHeight = diameter
-        if fanAngle is None:
-            fanAngle = self._defaultFanAngle()
-        rays = ObjectRays(diameter, halfAngle=fanAngle, H=fanNumber, T=rayNumber)
-
-        self.display(rays=rays, raysList=None, removeBlocked=removeBlocked, comments=comments,
-                     onlyPrincipalAndAxialRays=False,
-                     limitObjectToFieldOfView=False)
-        self._objectHeight = savedObjectHeight
+        try:
+            self._objectHeight = diameter
+            if fanAngle is None:
+                fanAngle = self._defaultFanAngle()
+            rays = ObjectRays(diameter, halfAngle=fanAngle, H=fanNumber, T=rayNumber)
+
+            self.display(rays=rays, raysList=None, removeBlocked=removeBlocked, comments=comments,
+                         onlyPrincipalAndAxialRays=False,
+                         limitObjectToFieldOfView=False)
+        finally:
+            self._objectHeight = savedObjectHeight
-- 
2.43.0

