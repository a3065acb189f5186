From 870919ede5144b757c0cf255186f867072599b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:31 +0000
Subject: [PATCH 01/76] fix: default-constructed Rot3/Pose3 must not share
 their arrays

---
 sumo-api/sumo/geometry/pose3.pyx | 15 +++++++--------
 sumo-api/sumo/geometry/rot3.pyx  |  6 +++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 11c8db9..e6dd631 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -22,14 +22,13 @@ from sumo.geometry.rot3 import Rot3
 class Pose3:
     # TODO: (dellaert) T21391110 cdef np.ndarray R_, t_
 
-    def __init__(self, R=np.identity(3, dtype=float),
-                       np.ndarray t=Vector3(0, 0, 0)):
-        """Create a Pose3 instance."""
+    def __init__(self, R=None, np.ndarray t=None):
+        """Create a Pose3 instance (identity by default)."""
         if isinstance(R, Rot3):
             self.R = R
         else:
             self.R = Rot3(R)
-        self.t = t
+        self.t = Vector3(0, 0, 0) if t is None else t
 
     def __str__(self):
         return "Pose3: t={}; R=\n{}".format(str(self.t), str(self.R))
@@ -108,20 +107,20 @@ class Pose3:
 
     @classmethod
     def ENU_camera(cls, float roll=0, float pitch=0, float yaw=0,
-                   np.ndarray position=Vector3(0, 0, 0)):
+                   np.ndarray position=None):
         """Create ENU_T_camera where default is upright, level, facing north.
            The transform is from camera coordinates (Z depth, Y down) to a local
            ENU frame, i.e., X=East, Y=North, Z=Up. Optionally, perturb via:
             roll  = around Z-axis, positive is fly right
             pitch = around X-axis, positive is up
             yaw   = around Y-axis, positive is fly right
-            position = 3-vector in ENU frame
+            position = 3-vector in ENU frame (default: origin)
         """
         return cls(R=Rot3.ENU_camera(roll, pitch, yaw), t=position)
 
     @classmethod
     def Maya_camera(cls, float roll=0, float pitch=0, float yaw=0,
-                   np.ndarray position=Vector3(0, 0, 0)):
+                   np.ndarray position=None):
         """Create Maya_T_camera where default is upright, level, facing -z.
            The transform is from camera coordinates (Z depth, Y down) to the
            Maya frame, i.e., right-handed coordinate frame with Y=up.
@@ -129,7 +128,7 @@ class Pose3:
             roll  = around Z-axis, positive is fly right in radians
             pitch = around X-axis, positive is up in radians
             yaw   = around Y-axis, positive is fly right in radians
-            position = 3-vector in ENU frame
+            position = 3-vector in ENU frame (default: origin)
         """
         return cls(R=Rot3.Maya_camera(roll, pitch, yaw), t=position)
 
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index e2176ff..5970364 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -27,9 +27,9 @@ MAYA_R_CAMERA = np.transpose(
 
 
 class Rot3:
-    def __init__(self, np.ndarray R=np.identity(3, dtype=float)):
-        """Create a Rot3 instance."""
-        self.R = R
+    def __init__(self, np.ndarray R=None):
+        """Create a Rot3 instance (identity by default)."""
+        self.R = np.identity(3, dtype=float) if R is None else R
 
     def matrix(self):
         """Return 3*3 matrix."""
-- 
2.43.0


From dbb72c37a57a98798be6da09dddc377b45c135be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:25 +0000
Subject: [PATCH 02/76] fix: pose, rotation and box XML must not depend on
 numpy's print options

---
 sumo-api/sumo/base/vector.pyx     | 12 ++++++++++++
 sumo-api/sumo/geometry/pose3.pyx  |  6 ++----
 sumo-api/sumo/geometry/rot3.pyx   |  5 +++--
 sumo-api/sumo/threedee/box_3d.pyx |  7 +++----
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index e5b7206..d18cd1b 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -167,3 +167,15 @@ cdef CMatrix3 matrix3_of_array(np.ndarray a):
     cdef np.ndarray[np.double_t, ndim=2] f = np.asfortranarray(a)
     memcpy(mat.data(), f.data, 9 * sizeof(np.double_t))
     return mat
+
+
+def text_of_vector(v):
+    """
+    Comma separated text from which the elements of vector <v> are recovered
+    exactly, whatever numpy's print options are.
+    """
+    v = np.ravel(v)
+    with np.printoptions(precision=25, floatmode='maxprec', suppress=False,
+                         sign='-', nanstr='nan', infstr='inf', formatter=None,
+                         threshold=v.size + 1, linewidth=1000, legacy=False):
+        return np.array2string(v, separator=', ')[1:-1]
diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index e6dd631..cc6ec68 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -10,10 +10,9 @@ Pose3: Rigid 3D transform modeled after GTSAM Pose3.
 cimport numpy as np
 import json
 import numpy as np
-import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3
+from sumo.base.vector import Vector3, text_of_vector
 from sumo.geometry.quaternion import Quaternion
 from sumo.geometry.rot3 import Rot3
 
@@ -209,8 +208,7 @@ class Pose3:
         pose_elem = ET.Element('pose')
 
         tr_elem = ET.SubElement(pose_elem, 'translation')
-        # regex to remove []
-        tr_elem.text = re.sub('[\[\]]', '', np.array2string(self.t, separator=', '))
+        tr_elem.text = text_of_vector(self.t)
 
         rot_elem = self.R.to_xml()
         pose_elem.append(rot_elem)
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index 5970364..ac2e57c 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -11,9 +11,10 @@ Rot3: Rigid 3D transform modeled after GTSAM Rot3.
 import math
 import numpy as np
 cimport numpy as np
-import re
 import xml.etree.cElementTree as ET
 
+from sumo.base.vector import text_of_vector
+
 # Default camera rotation facing due north in ENU frame
 # see https://developers.google.com/streetview/spherical-metadata
 ENU_R_CAMERA = np.transpose(
@@ -192,7 +193,7 @@ class Rot3:
 
         for c in range(3):
             elem = ET.SubElement(base_elem, 'c' + str(c+1))
-            elem.text =  re.sub('[\[\]]', '', np.array2string(self.R[:,c], separator=', '))
+            elem.text = text_of_vector(self.R[:,c])
 
         return (base_elem)
 
diff --git a/sumo-api/sumo/threedee/box_3d.pyx b/sumo-api/sumo/threedee/box_3d.pyx
index 4be56ef..1bf0c98 100644
--- a/sumo-api/sumo/threedee/box_3d.pyx
+++ b/sumo-api/sumo/threedee/box_3d.pyx
@@ -7,10 +7,9 @@ LICENSE file in the root directory of this source tree.
 
 import numpy as np
 import os
-import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3f
+from sumo.base.vector import Vector3f, text_of_vector
 from sumo.threedee.mesh import Mesh
 from sumo.threedee.textured_mesh import TexturedMesh
 
@@ -212,10 +211,10 @@ class Box3d(object):
         base_elem = ET.Element('box3d')
 
         c1_elem = ET.SubElement(base_elem, 'corner1')
-        c1_elem.text = re.sub('[\[\]]', '', np.array2string(self._min_corner, separator=', '))
+        c1_elem.text = text_of_vector(self._min_corner)
 
         c2_elem = ET.SubElement(base_elem, 'corner2')
-        c2_elem.text = re.sub('[\[\]]', '', np.array2string(self._max_corner, separator=', '))
+        c2_elem.text = text_of_vector(self._max_corner)
 
         return (base_elem)
 
-- 
2.43.0


From b855c20a495461be3d469c5b32860246baa95eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:02 +0000
Subject: [PATCH 03/76] fix: category_id_to_rgb must raise KeyError for the
 first id past the table

---
 sumo-api/sumo/base/colored_category.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/colored_category.pyx b/sumo-api/sumo/base/colored_category.pyx
index 20b7d15..e60efd8 100644
--- a/sumo-api/sumo/base/colored_category.pyx
+++ b/sumo-api/sumo/base/colored_category.pyx
@@ -112,7 +112,7 @@ class ColoredCategory(object):
         Exceptions:
         KeyError - if category_id does not exist in the dataset config.
         """
-        if category_id > len(self._data) or category_id < 0:
+        if category_id >= len(self._data) or category_id < 0:
             raise KeyError("Category id {} does not exist.".format(category_id))
         return self._data[category_id]["color"]
 
-- 
2.43.0


From aee25adf5420843f1902a79b33e633da46a9084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 04/76] fix: create_point_cloud must raise, not abort, on an
 image wider than a cube map

---
 sumo-api/sumo/images/rgbdci_360.pxd |  2 +-
 sumo-api/sumo/images/rgbdci_360.pyx | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sumo-api/sumo/images/rgbdci_360.pxd b/sumo-api/sumo/images/rgbdci_360.pxd
index 41c53dc..8812ab6 100644
--- a/sumo-api/sumo/images/rgbdci_360.pxd
+++ b/sumo-api/sumo/images/rgbdci_360.pxd
@@ -16,4 +16,4 @@ from sumo.opencv.wrap cimport Mat3b, Mat1f
 cdef extern from "sumo/images/Rgbdci360.h" namespace "sumo":
   cdef CPointCloud* createPointCloud(const Mat3b& rgb,
                                      const Mat1f& range,
-                                     bool all_points);
+                                     bool all_points) except +
diff --git a/sumo-api/sumo/images/rgbdci_360.pyx b/sumo-api/sumo/images/rgbdci_360.pyx
index af95a19..5b6cd2e 100644
--- a/sumo-api/sumo/images/rgbdci_360.pyx
+++ b/sumo-api/sumo/images/rgbdci_360.pyx
@@ -147,11 +147,12 @@ cdef create_point_cloud_(np.ndarray[Uint8, ndim=3] rgb,
 
     # Create PointCloud instance and take posession of C++ instance
     wrapper = <PointCloud>PointCloud.__new__(PointCloud)
-    wrapper._c_ptr = createPointCloud(rgb_cv[0], range_cv[0], all_points)
-
-    # De-allocate OpenCV objects, underlying memory remains with numpy
-    del range_cv
-    del rgb_cv
+    try:
+        wrapper._c_ptr = createPointCloud(rgb_cv[0], range_cv[0], all_points)
+    finally:
+        # De-allocate OpenCV objects, underlying memory remains with numpy
+        del range_cv
+        del rgb_cv
 
     # Return python point cloud
     return wrapper
-- 
2.43.0


From 84afc4935fa560142a26f74d86517498d98c4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 05/76] fix: PLY reading and writing errors must reach Python
 instead of aborting

---
 sumo-api/sumo/threedee/point_cloud_ply.pxd | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply.pxd b/sumo-api/sumo/threedee/point_cloud_ply.pxd
index a7d2759..1284ba0 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply.pxd
+++ b/sumo-api/sumo/threedee/point_cloud_ply.pxd
@@ -10,15 +10,15 @@ from libcpp.vector cimport vector
 cdef extern from "sumo/threedee/point_cloud_ply_c.h" namespace "sumo":
 
   # This is a wrapper for the function readPoints
-  cdef vector[float] readPoints(const char* filename)
+  cdef vector[float] readPoints(const char* filename) except +
 
   # This is a wrapper for the function writePoints
   cdef void writePoints(
     vector[float]& vertex_points,
-    const char* filename)
+    const char* filename) except +
 
   # This is a wrapper for the function writePointsAndColor
   cdef void writePointsAndColors(
     vector[float]& vertex_points,
     vector[unsigned char]& vertex_colors,
-    const char* filename)
+    const char* filename) except +
-- 
2.43.0


From 151c5cf4a669f11cb772e389b1205e21ed9a5f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 06/76] fix: readPoints must not overflow on double coordinates
 nor invent points for a truncated file

---
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index 2456c73..a1ecb06 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -8,6 +8,7 @@ LICENSE file in the root directory of this source tree.
 #include "point_cloud_ply_c.h"
 #include "tinyply/tinyply.h"
 
+#include <algorithm>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -42,10 +43,23 @@ vector<float> readPoints(const string& filename) {
       file.request_properties_from_element("vertex", {"x", "y", "z"});
 
   file.read(ss);
+  if (!ss) {
+    throw runtime_error("readPoints: file ends early or is malformed: " + filename);
+  }
 
   const size_t numVerticesBytes = vertexData->buffer.size_bytes();
   vector<float> vertices(3 * vertexData->count);
-  memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
+  if (vertexData->t == Type::FLOAT32 &&
+      numVerticesBytes == vertices.size() * sizeof(float)) {
+    memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
+  } else if (vertexData->t == Type::FLOAT64 &&
+      numVerticesBytes == vertices.size() * sizeof(double)) {
+    vector<double> coordinates(vertices.size());
+    memcpy(coordinates.data(), vertexData->buffer.get(), numVerticesBytes);
+    copy(coordinates.begin(), coordinates.end(), vertices.begin());
+  } else {
+    throw runtime_error("readPoints: coordinates are not float or double: " + filename);
+  }
 
   return vertices;
 }
-- 
2.43.0


From 840cca88320def22f45ce6d2e343f372126a87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 07/76] fix: a PLY file that could not be written completely
 must be reported

---
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index a1ecb06..a4acc8e 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -84,7 +84,9 @@ void writePoints(vector<float>& vertex_points, const string& filename) {
       0);
   ostream outputStream(&fb);
   myFile.write(outputStream, true);
-  fb.close();
+  if (!fb.close() || !outputStream) {
+    throw runtime_error("error while writing " + filename);
+  }
 }
 
 void writePointsAndColors(
@@ -118,7 +120,9 @@ void writePointsAndColors(
       0);
   ostream outputStream(&fb);
   myFile.write(outputStream, true);
-  fb.close();
+  if (!fb.close() || !outputStream) {
+    throw runtime_error("error while writing " + filename);
+  }
 }
 
 } // namespace sumo
-- 
2.43.0


From d661571e49cb0f8604b660cbb20ada00f71dbdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 08/76] fix: point clouds must stay consistently colored and
 refuse out-of-range indices

---
 sumo-api/sumo/threedee/point_cloud.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 10c79f7..2dba053 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -100,6 +100,8 @@ cdef class PointCloud:
           cloud_ptr = w_point_cloud._c_ptr
           clouds.push_back(cloud_ptr)
           point_clouds.append(w_point_cloud)
+      if len({c.colored() for c in point_clouds if c.num_points() > 0}) > 1:
+          raise ValueError("Can't mix colored and non-colored point clouds.")
       wrapper = <PointCloud>PointCloud.__new__(PointCloud)
       wrapper._c_ptr = new CPointCloud(clouds)
       return wrapper # python objects will now be destroyed
@@ -119,15 +121,22 @@ cdef class PointCloud:
 
   def append(self, PointCloud other):
       """ Append the points (and colors) of the other instance. Imperative."""
+      if self.num_points() > 0 and other.num_points() > 0 and \
+              self.colored() != other.colored():
+          raise ValueError("Can't mix colored and non-colored point clouds.")
       self._c_ptr.append(other._c_ptr[0])
 
   def point(self, size_t i):
+    if i >= self._c_ptr.numPoints():
+      raise IndexError("point index out of range")
     return array3(self._c_ptr.point(i))
 
   def points(self):
       return array_of_vector3s(self._c_ptr.points())
 
   def color(self, size_t i):
+    if i >= self._c_ptr.colors().size():
+      raise IndexError("color index out of range")
     return numpy_of_color(self._c_ptr.color(i))
 
   def colors(self):
-- 
2.43.0


From 43faff75b130a0cfef69c6248fc28a8b74dadce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 09/76] fix: Quaternion must free its C++ instance

---
 sumo-api/sumo/geometry/quaternion.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/geometry/quaternion.pyx b/sumo-api/sumo/geometry/quaternion.pyx
index c36c524..f1c0208 100644
--- a/sumo-api/sumo/geometry/quaternion.pyx
+++ b/sumo-api/sumo/geometry/quaternion.pyx
@@ -38,6 +38,9 @@ cdef class Quaternion:
       assert val.shape[0] == 4, "Quaternion takes 4-vector or 3*3 matrix"
       self.c_ptr_ = new Quaterniond(val[0], val[1], val[2], val[3])
 
+  def __dealloc__(self):
+    del self.c_ptr_
+
   def as_vector(self):
     """return quaternion as a vector"""
     q = self.c_ptr_
-- 
2.43.0


From c8a619ca4622c32d22a4971e391567a7f2601914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 10/76] fix: RGB-D TIFF pages of unexpected layout and failed
 writes must raise, without leaking

---
 sumo-api/sumo/images/RgbdTiff.cpp  |  35 ++++++---
 sumo-api/sumo/images/rgbd_tiff.pyx | 111 ++++++++++++++++-------------
 2 files changed, 84 insertions(+), 62 deletions(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 8ecd17d..6ed8af1 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -7,6 +7,7 @@ LICENSE file in the root directory of this source tree.
 
 #include "RgbdTiff.h"
 #include "picojson.h"
+#include <memory>
 #include <stdexcept>
 
 // These constants are used for our metadata reading/writing
@@ -18,6 +19,9 @@ using namespace std;
 
 namespace sumo {
 
+// Closes the TIFF also when an exception is thrown
+typedef std::unique_ptr<TIFF, void (*)(TIFF*)> TiffPtr;
+
 const std::map<std::string, TiffPageType> kStrToPageType = {
   {"rgb", TiffPageType::RGB},
   // We include the "depth" -> InversDepth mapping here due to backwards
@@ -134,18 +138,20 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
   uint32 width, height;
   uint16 samplesPerPixel;
   uint16 bitsPerSample;
-  TIFFGetField(tiff, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
+  TIFFGetFieldDefaulted(tiff, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
   if (samplesPerPixel != 3 && samplesPerPixel != 1) {
     throw runtime_error("readImage: unexpected channel count");
   }
 
-  TIFFGetField(tiff, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
+  TIFFGetFieldDefaulted(tiff, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
   if (bitsPerSample != 8 && bitsPerSample != 16) {
     throw runtime_error("readImage: unexpected bits per sample");
   }
 
-  TIFFGetField(tiff, TIFFTAG_IMAGEWIDTH, &width);
-  TIFFGetField(tiff, TIFFTAG_IMAGELENGTH, &height);
+  if (TIFFGetField(tiff, TIFFTAG_IMAGEWIDTH, &width) != 1 ||
+      TIFFGetField(tiff, TIFFTAG_IMAGELENGTH, &height) != 1) {
+    throw runtime_error("readImage: missing image size");
+  }
   TiffPageType pageType = readTiffPageType(tiff, samplesPerPixel);
   auto pageEntry = pageMap->find(pageType);
   if (pageEntry == pageMap->end()) {
@@ -167,7 +173,10 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
   }
 
   // TODO: is stride always channels*width for new Mat image?
-  size_t stride = samplesPerPixel * width * (bitsPerSample / 8);
+  size_t stride = width * img->elemSize();
+  if (static_cast<size_t>(TIFFScanlineSize(tiff)) != stride) {
+    throw runtime_error("readImage: unexpected scanline size");
+  }
   for (unsigned int y = 0; y < height; ++y) {
     status = TIFFReadScanline(tiff, (void*)(img->data + y * stride), y, 0);
     if (status == -1) {
@@ -186,7 +195,8 @@ void readRgbdTiff(
     const string& path,
     TiffPageMap* const pageMap,
     TiffMetadata* const meta) {
-  TIFF* tiff = TIFFOpen(path.c_str(), "r");
+  TiffPtr file(TIFFOpen(path.c_str(), "r"), TIFFClose);
+  TIFF* tiff = file.get();
   if (!tiff) {
     throw runtime_error("readRgbdTiff: can't open TIFF file " + path);
   }
@@ -194,7 +204,6 @@ void readRgbdTiff(
   readMetadata(tiff, meta);
   // Keep reading images until there are none left
   while(readImage(tiff, pageMap) && TIFFReadDirectory(tiff));
-  TIFFClose(tiff);
 }
 
 // Writes a single image to the given TIFF object
@@ -223,10 +232,14 @@ void writeImage(
   // TODO: is stride always correct for every Mat image?
   size_t stride = img.channels() * img.cols * (bitsPerSample / 8);
   for (int y = 0; y < img.rows; ++y) {
-    TIFFWriteScanline(tiff, (void*)(img.data + y * stride), y, 0);
+    if (TIFFWriteScanline(tiff, (void*)(img.data + y * stride), y, 0) < 0) {
+      throw runtime_error("writeImage: error writing scanline");
+    }
   }
 
-  TIFFWriteDirectory(tiff);
+  if (!TIFFWriteDirectory(tiff)) {
+    throw runtime_error("writeImage: error writing directory");
+  }
 }
 
 // Write a multi-image TIFF to the path specified
@@ -243,7 +256,8 @@ void writeRgbdTiff(
   if (pageMap.find(TiffPageType::InverseDepth) == pageMap.end()) {
     throw runtime_error("writeRgbdTiff: Depth image not found");
   }
-  TIFF* tiff = TIFFOpen(path.c_str(), "w");
+  TiffPtr file(TIFFOpen(path.c_str(), "w"), TIFFClose);
+  TIFF* tiff = file.get();
   if (!tiff) {
     throw runtime_error("writeRgbdTiff: can't open TIFF file " + path);
   }
@@ -265,7 +279,6 @@ void writeRgbdTiff(
         tiff, *image, pageType, pageIndex, static_cast<uint16>(pageMap.size()));
     pageIndex++;
   }
-  TIFFClose(tiff);
 }
 
 } // namespace sumo
diff --git a/sumo-api/sumo/images/rgbd_tiff.pyx b/sumo-api/sumo/images/rgbd_tiff.pyx
index d500cc6..4b32c53 100644
--- a/sumo-api/sumo/images/rgbd_tiff.pyx
+++ b/sumo-api/sumo/images/rgbd_tiff.pyx
@@ -16,7 +16,7 @@ from libcpp.string cimport string
 from libcpp.utility cimport pair
 
 import sumo.geometry.inverse_depth as id
-from sumo.opencv.wrap cimport CV_8UC1
+from sumo.opencv.wrap cimport CV_8UC1, CV_16UC1
 from sumo.opencv.wrap cimport (
     array_from_mat3b, array_from_mat1b, array_from_mat1w)
 from sumo.opencv.wrap cimport Mat1b, Mat1w, Mat3b, Mat
@@ -63,6 +63,13 @@ kMultiImageToTiffPageType = {
 }
 
 
+cdef void _delete_images(TiffPageMap& page_map):
+  it = page_map.begin()
+  while it != page_map.end():
+    del dereference(it).second
+    postincrement(it)
+
+
 def load(unicode path):
   """Read from a single multi-page tiff with color and inverse depth.  Note that
      while images are always serialized as inverse depth, it is always converted
@@ -74,32 +81,36 @@ def load(unicode path):
   cdef TiffMetadata meta
   for page_type in TiffPageType:
     page_map_cv.insert(TiffPageMapEntry(page_type, new Mat()))
-  py_byte_string = path.encode('UTF-8')
-  readRgbdTiff(py_byte_string, &page_map_cv, &meta)
-
   page_map = {}
-  for it in page_map_cv:
-    if it.second[0].empty():
-      continue
-    if it.first == TiffPageType.RGB:
-      if it.second[0].channels() != 3:
-        raise ValueError("rgbd_tiff.load RGB does not have 3 channels")
-      else:
-        page_map[MultiImagePageType.RGB] = array_from_mat3b(<Mat3b>it.second[0])
-    elif it.first == TiffPageType.InverseDepth:
-      if it.second[0].channels() != 1:
-        raise ValueError("rgbd_tiff.load Inverse depth does not have 1 channels")
-      if it.second[0].type() == CV_8UC1:
-        inv_depth_uint8 = array_from_mat1b(<Mat1b>it.second[0])
-        # Since this is the 8-bit representation, assume we need to convert
-        # from the 1m near plane to our current default near plane value
-        page_map[MultiImagePageType.Depth] = id.uint16_of_uint8_inverse_depth_map(inv_depth_uint8, near=1.0)
-        meta.depthNearPlane = <float>id.DEFAULT_NEAR
-      else:
-        page_map[MultiImagePageType.Depth] = array_from_mat1w(<Mat1w>it.second[0])
-    elif it.first == TiffPageType.Category or it.first == TiffPageType.Instance:
-      page_map[kTiffToMultiImagePageType[it.first]] = array_from_mat1w(<Mat1w>it.second[0])
-    del it.second
+  try:
+    py_byte_string = path.encode('UTF-8')
+    readRgbdTiff(py_byte_string, &page_map_cv, &meta)
+
+    for it in page_map_cv:
+      if it.second[0].empty():
+        continue
+      if it.first == TiffPageType.RGB:
+        if it.second[0].channels() != 3:
+          raise ValueError("rgbd_tiff.load RGB does not have 3 channels")
+        else:
+          page_map[MultiImagePageType.RGB] = array_from_mat3b(<Mat3b>it.second[0])
+      elif it.first == TiffPageType.InverseDepth:
+        if it.second[0].channels() != 1:
+          raise ValueError("rgbd_tiff.load Inverse depth does not have 1 channels")
+        if it.second[0].type() == CV_8UC1:
+          inv_depth_uint8 = array_from_mat1b(<Mat1b>it.second[0])
+          # Since this is the 8-bit representation, assume we need to convert
+          # from the 1m near plane to our current default near plane value
+          page_map[MultiImagePageType.Depth] = id.uint16_of_uint8_inverse_depth_map(inv_depth_uint8, near=1.0)
+          meta.depthNearPlane = <float>id.DEFAULT_NEAR
+        else:
+          page_map[MultiImagePageType.Depth] = array_from_mat1w(<Mat1w>it.second[0])
+      elif it.first == TiffPageType.Category or it.first == TiffPageType.Instance:
+        if it.second[0].type() != CV_16UC1:
+          raise ValueError("rgbd_tiff.load category/instance image is not uint16")
+        page_map[kTiffToMultiImagePageType[it.first]] = array_from_mat1w(<Mat1w>it.second[0])
+  finally:
+    _delete_images(page_map_cv)
 
   inv_depth = page_map[MultiImagePageType.Depth]
   assert inv_depth.ndim == 2
@@ -135,31 +146,29 @@ def save(page_map_np, unicode path, near=id.DEFAULT_NEAR):
 
   cdef np.ndarray inv_depth
   cdef TiffPageMap page_map
-  for page_type, img_np in page_map_np.items():
-    if page_type == MultiImagePageType.Depth:
-      inv_depth = id.inverse_depth_map_of_depth_image(img_np, near)
-      page_map[TiffPageType.InverseDepth] = <Mat*>mat1w_from_array(inv_depth)
-    elif page_type == MultiImagePageType.InverseDepth:
-      # Here we use MultiImagePageType.Depth because the underlying cpp code
-      # is already expecting inverse depth for this key, while the input to
-      # this function does not
-      page_map[TiffPageType.InverseDepth] = <Mat*>mat1w_from_array(img_np)
-    elif page_type == MultiImagePageType.RGB:
-      page_map[kMultiImageToTiffPageType[page_type]] = \
-        <Mat*>mat3b_from_array(img_np)
-    elif page_type == MultiImagePageType.Category or \
-         page_type == MultiImagePageType.Instance:
-      page_map[kMultiImageToTiffPageType[page_type]] = \
-      <Mat*>mat1w_from_array(img_np)
-    else:
-      raise ValueError("rgbd_tiff.write unsupported page type")
-
   cdef TiffMetadata meta
-  meta.depthNearPlane = <float>near;
+  try:
+    for page_type, img_np in page_map_np.items():
+      if page_type == MultiImagePageType.Depth:
+        inv_depth = id.inverse_depth_map_of_depth_image(img_np, near)
+        page_map[TiffPageType.InverseDepth] = <Mat*>mat1w_from_array(inv_depth)
+      elif page_type == MultiImagePageType.InverseDepth:
+        # Here we use MultiImagePageType.Depth because the underlying cpp code
+        # is already expecting inverse depth for this key, while the input to
+        # this function does not
+        page_map[TiffPageType.InverseDepth] = <Mat*>mat1w_from_array(img_np)
+      elif page_type == MultiImagePageType.RGB:
+        page_map[kMultiImageToTiffPageType[page_type]] = \
+          <Mat*>mat3b_from_array(img_np)
+      elif page_type == MultiImagePageType.Category or \
+           page_type == MultiImagePageType.Instance:
+        page_map[kMultiImageToTiffPageType[page_type]] = \
+        <Mat*>mat1w_from_array(img_np)
+      else:
+        raise ValueError("rgbd_tiff.write unsupported page type")
 
-  writeRgbdTiff(page_map, path.encode('UTF-8'), meta)
+    meta.depthNearPlane = <float>near;
 
-  it = page_map.begin()
-  while it != page_map.end():
-    del dereference(it).second
-    postincrement(it)
+    writeRgbdTiff(page_map, path.encode('UTF-8'), meta)
+  finally:
+    _delete_images(page_map)
-- 
2.43.0


From 39b2b061797b841cea9baa2ac96cb533331a4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:51 +0000
Subject: [PATCH 11/76] fix: a numpy array that cannot back an image must
 raise, not crash

---
 sumo-api/sumo/opencv/wrap.pxd | 10 +++++-----
 sumo-api/sumo/opencv/wrap.pyx | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/opencv/wrap.pxd b/sumo-api/sumo/opencv/wrap.pxd
index d87aa94..4a3c9c4 100644
--- a/sumo-api/sumo/opencv/wrap.pxd
+++ b/sumo-api/sumo/opencv/wrap.pxd
@@ -70,11 +70,11 @@ cdef extern from "<opencv2/core/core.hpp>" namespace "cv":
 
 # Convert from numpy to opencv
 # NOTE: these do not copy memory, but provide "views" onto the numpy data.
-cdef Mat* mat_from_array(np.ndarray array) except +
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except +
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except +
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except +
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except +
+cdef Mat* mat_from_array(np.ndarray array) except NULL
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL
 
 # Convert from opencv to numpy
 # NOTE: these *do* copy data, i.e., they assume OpenCV owns the memory buffer.
diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f3a735b..f2e79e5 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -12,7 +12,7 @@ from libc.string cimport memcpy
 from libc.stdint cimport uint16_t
 
 
-cdef Mat* mat_from_array(np.ndarray array):
+cdef Mat* mat_from_array(np.ndarray array) except NULL:
   """ Convert numpy array to generic OpenCV Mat.
       Keyword arguments:
           array -- numpy array, 3-channel uint8 or 1-channel uint8 or float32
@@ -40,7 +40,7 @@ cdef Mat* mat_from_array(np.ndarray array):
       raise ValueError('mat_from_array failed')
   return mat
 
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1b* mat = new Mat1b(
       array.shape[0], array.shape[1], <unsigned char*>array.data, array.strides[0])
@@ -48,12 +48,12 @@ cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
       raise ValueError('mat1b_from_array failed')
   return mat
 
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array):
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned short*>array.data != <unsigned short*>0
   return new Mat1w(
       array.shape[0], array.shape[1], <unsigned short*>array.data, array.strides[0])
 
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1f* mat = new Mat1f(
       array.shape[0], array.shape[1], <np.float32_t*>array.data, array.strides[0])
@@ -61,7 +61,7 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
       raise ValueError('mat1f_from_array failed')
   return mat
 
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array):
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
   assert <Vec3b*>array.data != <Vec3b*>0
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
-- 
2.43.0


From 8f6bf9aa90d65166ac792291f53ad92ca952098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:38 +0000
Subject: [PATCH 12/76] fix: conversions from arrays must not swallow
 exceptions

---
 sumo-api/sumo/base/vector.pxd          | 18 +++++++++---------
 sumo-api/sumo/base/vector.pyx          | 18 +++++++++---------
 sumo-api/sumo/threedee/mesh.pxd        |  2 +-
 sumo-api/sumo/threedee/mesh.pyx        |  2 +-
 sumo-api/sumo/threedee/point_cloud.pyx |  4 ++--
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pxd b/sumo-api/sumo/base/vector.pxd
index 7d8d49d..5bc233e 100644
--- a/sumo-api/sumo/base/vector.pxd
+++ b/sumo-api/sumo/base/vector.pxd
@@ -69,34 +69,34 @@ cdef extern from "sumo/base/Vector.h" namespace "sumo":
 # declare conversions to and from numpy (defined in pyx):
 
 cdef array_from_matrix3(CMatrix3 mat)
-cdef CMatrix3 matrix3_of_array(np.ndarray input_a)
+cdef CMatrix3 matrix3_of_array(np.ndarray input_a) except *
 
 # Vector2
 
-cdef CVector2 vector2(np.ndarray[np.float32_t, ndim=2])
+cdef CVector2 vector2(np.ndarray[np.float32_t, ndim=2]) except *
 cdef np.ndarray[np.float32_t, ndim=2] array2(CVector2)
 
 # Vector2f
 
-cdef CVector2f vector2f(np.ndarray[np.float32_t, ndim=1] a)
+cdef CVector2f vector2f(np.ndarray[np.float32_t, ndim=1] a) except *
 cdef np.ndarray[np.float32_t, ndim=1] array2f(CVector2f v)
-cdef vector[CVector2f] vector2fs_of_array(np.ndarray[np.float32_t, ndim=2] points)
+cdef vector[CVector2f] vector2fs_of_array(np.ndarray[np.float32_t, ndim=2] points) except *
 cdef np.ndarray[np.float32_t, ndim=2] array_of_vector2fs(vector[CVector2f] points)
 
 # Vector3
 
-cdef CVector3 vector3(np.ndarray)
+cdef CVector3 vector3(np.ndarray) except *
 cdef np.ndarray array3(CVector3)
-cdef vector[CVector3] vector3s_of_array(np.ndarray)
+cdef vector[CVector3] vector3s_of_array(np.ndarray) except *
 cdef np.ndarray array_of_vector3s(vector[CVector3])
 
 # Vector3f
 
-cdef CVector3f vector3f(np.ndarray[np.float32_t, ndim=1] a)
+cdef CVector3f vector3f(np.ndarray[np.float32_t, ndim=1] a) except *
 cdef np.ndarray[np.float32_t, ndim=1] array3f(CVector3f v)
-cdef vector[CVector3f] vector3fs_of_array(np.ndarray[np.float32_t, ndim=2] points)
+cdef vector[CVector3f] vector3fs_of_array(np.ndarray[np.float32_t, ndim=2] points) except *
 cdef np.ndarray[np.float32_t, ndim=2] array_of_vector3fs(vector[CVector3f] points)
 
 # Vector4
-cdef CVector4 vector4(np.ndarray)
+cdef CVector4 vector4(np.ndarray) except *
 cdef np.ndarray array4(CVector4)
diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index d18cd1b..c4ef818 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -43,7 +43,7 @@ cpdef np.ndarray Matrix3(x, y, z):
 
 # Vector2 conversions
 
-cdef CVector2 vector2(np.ndarray a):
+cdef CVector2 vector2(np.ndarray a) except *:
   return CVector2(a[0],a[1])
 
 cdef np.ndarray array2(CVector2 v):
@@ -51,13 +51,13 @@ cdef np.ndarray array2(CVector2 v):
 
 # Vector2f conversions
 
-cdef CVector2f vector2f(np.ndarray a):
+cdef CVector2f vector2f(np.ndarray a) except *:
   return CVector2f(a[0],a[1])
 
 cdef np.ndarray array2f(CVector2f v):
   return np.array([v.x(), v.y()], dtype=np.float32)
 
-cdef vector[CVector2f] vector2fs_of_array(np.ndarray points):
+cdef vector[CVector2f] vector2fs_of_array(np.ndarray points) except *:
   assert points.shape[0] == 2
   cdef vector[CVector2f] cpp_points
   cdef CVector2f cpp_point
@@ -75,13 +75,13 @@ cdef np.ndarray array_of_vector2fs(vector[CVector2f] cpp_points):
 
 # Vector3 conversions
 
-cdef CVector3 vector3(np.ndarray a):
+cdef CVector3 vector3(np.ndarray a) except *:
   return CVector3(a[0],a[1],a[2])
 
 cdef np.ndarray array3(CVector3 v):
   return np.array([v.x(), v.y(), v.z()], dtype=np.float64)
 
-cdef vector[CVector3] vector3s_of_array(np.ndarray points):
+cdef vector[CVector3] vector3s_of_array(np.ndarray points) except *:
   assert points.shape[0] == 3
   cdef vector[CVector3] cpp_points
   cdef CVector3 cpp_point
@@ -99,13 +99,13 @@ cdef np.ndarray array_of_vector3s(vector[CVector3] cpp_points):
 
 # Vector3f conversions
 
-cdef CVector3f vector3f(np.ndarray a):
+cdef CVector3f vector3f(np.ndarray a) except *:
   return CVector3f(a[0],a[1],a[2])
 
 cdef np.ndarray array3f(CVector3f v):
   return np.array([v.x(), v.y(), v.z()], dtype=np.float32)
 
-cdef vector[CVector3f] vector3fs_of_array(np.ndarray points):
+cdef vector[CVector3f] vector3fs_of_array(np.ndarray points) except *:
   assert points.shape[0] == 3
   cdef vector[CVector3f] cpp_points
   cdef CVector3f cpp_point
@@ -123,7 +123,7 @@ cdef np.ndarray array_of_vector3fs(vector[CVector3f] cpp_points):
 
 # Vector4 conversions
 
-cdef CVector4 vector4(np.ndarray a):
+cdef CVector4 vector4(np.ndarray a) except *:
   return CVector4(a[0],a[1],a[2],a[3])
 
 cdef np.ndarray array4(CVector4 v):
@@ -162,7 +162,7 @@ cdef array_from_matrix3(CMatrix3 mat):
     memcpy(a.data, mat.data(), 9 * sizeof(np.double_t))
     return a
 
-cdef CMatrix3 matrix3_of_array(np.ndarray a):
+cdef CMatrix3 matrix3_of_array(np.ndarray a) except *:
     cdef CMatrix3 mat
     cdef np.ndarray[np.double_t, ndim=2] f = np.asfortranarray(a)
     memcpy(mat.data(), f.data, 9 * sizeof(np.double_t))
diff --git a/sumo-api/sumo/threedee/mesh.pxd b/sumo-api/sumo/threedee/mesh.pxd
index d21ef81..7005834 100644
--- a/sumo-api/sumo/threedee/mesh.pxd
+++ b/sumo-api/sumo/threedee/mesh.pxd
@@ -45,7 +45,7 @@ cdef class Mesh:
   cdef CMesh* _mesh
 
 # Utility functions. TODO: move to base?
-cdef vector[unsigned int] uint32s_of_array(np.ndarray indices)
+cdef vector[unsigned int] uint32s_of_array(np.ndarray indices) except *
 cdef np.ndarray array_of_uint32s(vector[unsigned int] indices)
 
 cdef Mesh_usurp(CMesh* mesh)
diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 609d92e..9b6b806 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -14,7 +14,7 @@ from sumo.opencv.wrap cimport (
     Mat3b, Mat1f, array_from_mat3b, mat3b_from_array, array_from_mat1f
 )
 
-cdef vector[unsigned int] uint32s_of_array(np.ndarray indices):
+cdef vector[unsigned int] uint32s_of_array(np.ndarray indices) except *:
   cdef vector[unsigned int] cpp_indices
   for i in range(indices.shape[0]):
     cpp_indices.push_back(<unsigned int>indices[i])
diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 2dba053..e05f545 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -23,7 +23,7 @@ cdef np.ndarray numpy_of_color(CColor color):
   return np.array([color.r, color.g, color.b], dtype=np.uint8)
 
 # Convert single color from Python to C++
-cdef CColor color_of_numpy(np.ndarray color):
+cdef CColor color_of_numpy(np.ndarray color) except *:
   cdef CColor c
   c.r = color[0]
   c.g = color[1]
@@ -39,7 +39,7 @@ cdef np.ndarray array_of_colors(vector[CColor] colors):
   return result
 
 # Convert colors from Python to C++
-cdef vector[CColor] colors_of_array(np.ndarray colors):
+cdef vector[CColor] colors_of_array(np.ndarray colors) except *:
   cdef vector[CColor] cpp_colors
   cdef CColor cpp_color
   for i in range(colors.shape[1]):
-- 
2.43.0


From 6757ef2f3341d90269d659b4012003591cf53100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:44 +0000
Subject: [PATCH 13/76] fix: merging a colored point cloud with an empty one
 must work as in append

---
 sumo-api/sumo/threedee/point_cloud.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index e05f545..8d3d245 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -78,7 +78,8 @@ cdef class PointCloud:
   @classmethod
   def merge(cls, first, second):
       """ Return a new instance that merges the two point clouds."""
-      if first.colored() and not second.colored():
+      if first.num_points() > 0 and second.num_points() > 0 and \
+              first.colored() and not second.colored():
           raise ValueError("Can't merge colored point cloud with non-colored point cloud.")
       result = cls()
       result.append(first)
-- 
2.43.0


From f7a2525d58d9fee31d755585da212bf960546930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 14/76] fix: gltf2glb must relocate every view of a model with
 several buffers

---
 sumo-api/sumo/threedee/glb_converter.pyx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 48cf4a5..0527aab 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -184,12 +184,9 @@ def gltf2glb(input_glTF, output_glb=None):
     # Iterate over the bufferViews to
     # move buffers into the single GLB buffer body
     for bufview in gltf_json["bufferViews"]:
-        try:
-            bufview["byteOffset"] \
-                = bufview["byteOffset"] + buffer_map[bufview["buffer"]]
-        except KeyError:
-            bufview["byteOffset"] = 0
-
+        # byteOffset is optional and defaults to 0
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
         bufview["buffer"] = 0
 
     # Iterate over images
@@ -222,6 +219,8 @@ def gltf2glb(input_glTF, output_glb=None):
     #TODO: In our model pool, they doesn't contain shader resource.
     #if 'shaders' in gltf_json:
 
+    # A GLB has a single buffer, all others were moved into its body
+    del gltf_json["buffers"][1:]
     gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
     lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
     gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-- 
2.43.0


From bae801a3630c3ece3250b7fb1b61a932f5e6ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 15/76] fix: save_as_glb must honor a relative path

---
 sumo-api/sumo/threedee/gltf_model.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 4f5e2fe..b23639d 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -255,6 +255,7 @@ cdef class GltfModel:
               IOError - if intermediate gltf file cannot be written
               RunTimeError - if saveImages fails when writing gltf files
         """
+        path = os.path.abspath(path)  # we change directory below
         base_name = os.path.basename(path)
         temp = tempfile.mkdtemp()
         temp_folder = temp.decode('UTF-8') if hasattr(temp, 'decode') else temp
-- 
2.43.0


From c32172778d361445b8c54db74ec8ba036f36899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 16/76] fix: material updates must apply any color, keep
 factors and report bad textures

---
 sumo-api/sumo/threedee/GltfModel.cpp  | 28 +++++++++++++++------------
 sumo-api/sumo/threedee/gltf_model.pxd |  8 ++++----
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index dd4fdc6..2eb43af 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -561,7 +561,7 @@ void GltfModel::updateMaterial(
 
   // color == [0, 0, 0] implies no color, uri.size() == 0,
   // implies no texture
-  if (color[0] != 0 && color[1] != 0 && color[2] != 0) {
+  if (color[0] != 0 || color[1] != 0 || color[2] != 0) {
     // Update the color
     tinygltf::Parameter baseColorFactor;
     baseColorFactor.number_array = {color[0], color[1], color[2], 1};
@@ -599,14 +599,16 @@ size_t GltfModel::loadTexture(
     throw runtime_error("loadTexture: Empty file: " + filename);
   }
   tinygltf::Image image;
-  tinygltf::LoadImageData(
-      &image,
-      nullptr,
-      0,
-      0,
-      &bytes.at(0),
-      static_cast<int>(bytes.size()),
-      nullptr);
+  if (!tinygltf::LoadImageData(
+          &image,
+          nullptr,
+          0,
+          0,
+          &bytes.at(0),
+          static_cast<int>(bytes.size()),
+          nullptr)) {
+    throw runtime_error("loadTexture: not a readable image: " + filename);
+  }
 
   size_t start = uri.find_last_of("/") + 1;
   size_t end = uri.find_last_of(".");
@@ -633,15 +635,17 @@ size_t GltfModel::addColoredMaterial(
     double metallic,
     double roughness) {
   tinygltf::Parameter baseColorFactor;
-  tinygltf::Parameter metallicFactor, roughNessFactor;
+  tinygltf::Parameter metallicFactor, roughnessFactor;
   baseColorFactor.number_array = {color[0], color[1], color[2], 1};
   metallicFactor.number_value = metallic;
-  roughNessFactor.number_value = roughness;
+  metallicFactor.has_number_value = true;
+  roughnessFactor.number_value = roughness;
+  roughnessFactor.has_number_value = true;
   tinygltf::Material material;
   material.name = name;
   material.values["baseColorFactor"] = baseColorFactor;
   material.values["metallicFactor"] = metallicFactor;
-  material.values["roughNessFactor"] = roughNessFactor;
+  material.values["roughnessFactor"] = roughnessFactor;
 
   this->materials.push_back(material);
   // Return material id
diff --git a/sumo-api/sumo/threedee/gltf_model.pxd b/sumo-api/sumo/threedee/gltf_model.pxd
index a228110..b73a101 100644
--- a/sumo-api/sumo/threedee/gltf_model.pxd
+++ b/sumo-api/sumo/threedee/gltf_model.pxd
@@ -29,11 +29,11 @@ cdef extern from "sumo/threedee/GltfModel.h" namespace "sumo":
     vector[CImage] images
     vector[CMesh*] getPolymorphicPrimitiveMeshes() except +
     CGltfModel() except +
-    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh)
-    void addPrimitiveMesh(const CMesh& mesh)
+    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh) except +
+    void addPrimitiveMesh(const CMesh& mesh) except +
     void updateMaterial(size_t meshIndex, CVector3& color, string& uri,
-                        string& baseDir)
-    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness)
+                        string& baseDir) except +
+    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness) except +
     void setURIs(const string& extension) except +
     void saveImages(const string& folder) except +
 
-- 
2.43.0


From 2aa67395f849770a8a22572d8d7eceaad0416ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 17/76] fix: saving a glTF model must report failed writes and
 keep every buffer

---
 sumo-api/sumo/threedee/GltfModel.cpp         |  7 +++-
 sumo-api/sumo/threedee/gltf.pxd              |  2 +-
 sumo-api/sumo/threedee/gltf.pyx              |  2 +-
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 39 +++++++++++++-------
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 2eb43af..51a98d0 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -72,7 +72,7 @@ pair<size_t, size_t> GltfModel::addDataToBuffer(
   size_t count = values.size();
   size_t numBytes = count * sizeof(float) * 3;
   size_t byteOffset = reallyAddToBuffer(
-      reinterpret_cast<const unsigned char*>(values[0].data()), numBytes);
+      reinterpret_cast<const unsigned char*>(values.data()), numBytes);
   return {byteOffset, numBytes};
 }
 
@@ -514,7 +514,10 @@ void GltfModel::saveImages(const string& folder) const {
       throw invalid_argument("GltfModel::saveImages: found empty image URI");
     }
     try {
-      cv::imwrite(folder + "/" + image.uri, bgr);
+      if (!cv::imwrite(folder + "/" + image.uri, bgr)) {
+        throw runtime_error(
+            "GltfModel::saveImages: could not write " + image.uri);
+      }
     } catch (cv::Exception& e) {
       throw runtime_error(
           "GltfModel::saveImages: OpenCV could not write " + image.uri +
diff --git a/sumo-api/sumo/threedee/gltf.pxd b/sumo-api/sumo/threedee/gltf.pxd
index 259fa33..4d38648 100644
--- a/sumo-api/sumo/threedee/gltf.pxd
+++ b/sumo-api/sumo/threedee/gltf.pxd
@@ -44,7 +44,7 @@ cdef extern from "sumo/threedee/tiny_gltf/tiny_gltf.h" namespace "tinygltf":
     CTinyGLTF() except +
     bool LoadASCIIFromFile(CGltfModel* model, string* err,
                            const string& filename)
-    bool WriteGltfSceneToFile(CGltfModel* model, const string& filename)
+    bool WriteGltfSceneToFile(CGltfModel* model, const string& filename) except +
 
     bool LoadBinaryFromFile(
       CGltfModel* model,
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index b13faee..ff857a0 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -82,4 +82,4 @@ cdef class TinyGLTF:
       py_byte_string = path.encode('UTF-8')
       cdef bool ret = self.c_ptr.WriteGltfSceneToFile(c_model, py_byte_string)
       if not ret:
-          raise RuntimeError("Failed to write glTF")
+          raise IOError("Failed to write glTF")
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 9094ef6..ead29b0 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4000,17 +4000,18 @@ static void SerializeGltfBufferData(
     json& o) {
   std::string header = "data:application/octet-stream;base64,";
   std::string encodedData =
-      base64_encode(&data[0], static_cast<unsigned int>(data.size()));
+      base64_encode(data.data(), static_cast<unsigned int>(data.size()));
   SerializeStringProperty("uri", header + encodedData, o);
 }
 
-static void SerializeGltfBufferData(
+static bool SerializeGltfBufferData(
     const std::vector<unsigned char>& data,
     const std::string& binFilename) {
   std::ofstream output(binFilename.c_str(), std::ofstream::binary);
   output.write(
-      reinterpret_cast<const char*>(&data[0]), std::streamsize(data.size()));
+      reinterpret_cast<const char*>(data.data()), std::streamsize(data.size()));
   output.close();
+  return output.good();
 }
 
 static void SerializeParameterMap(ParameterMap& param, json& o) {
@@ -4176,12 +4177,14 @@ static void SerializeGltfBuffer(Buffer& buffer, json& o) {
   }
 }
 
-static void SerializeGltfBuffer(
+static bool SerializeGltfBuffer(
     Buffer& buffer,
     json& o,
     const std::string& binFilename,
     const std::string& binBaseFilename) {
-  SerializeGltfBufferData(buffer.data, binFilename);
+  if (!SerializeGltfBufferData(buffer.data, binFilename)) {
+    return false;
+  }
   SerializeNumberProperty("byteLength", buffer.data.size(), o);
   SerializeStringProperty("uri", binBaseFilename, o);
 
@@ -4191,6 +4194,7 @@ static void SerializeGltfBuffer(
   if (buffer.extras.Type() != NULL_TYPE) {
     SerializeValue("extras", buffer.extras, o);
   }
+  return true;
 }
 
 static void SerializeGltfBufferView(BufferView& bufferView, json& o) {
@@ -4454,11 +4458,13 @@ static void SerializeGltfTexture(Texture& texture, json& o) {
   SerializeExtensionMap(texture.extensions, o);
 }
 
-static void WriteGltfFile(
+static bool WriteGltfFile(
     const std::string& output,
     const std::string& content) {
   std::ofstream gltfFile(output.c_str());
   gltfFile << content << std::endl;
+  gltfFile.close();
+  return gltfFile.good();
 }
 
 bool TinyGLTF::WriteGltfSceneToFile(
@@ -4510,17 +4516,25 @@ bool TinyGLTF::WriteGltfSceneToFile(
     baseDir = "./";
   }
 
-  std::string binSaveFilePath = JoinPath(baseDir, binFilename);
-
-  // BUFFERS (We expect only one buffer here)
+  // BUFFERS, each in its own file
   json buffers;
   for (unsigned int i = 0; i < model->buffers.size(); ++i) {
     json buffer;
     if (embedBuffers) {
       SerializeGltfBuffer(model->buffers[i], buffer);
     } else {
-      SerializeGltfBuffer(
-          model->buffers[i], buffer, binSaveFilePath, binFilename);
+      std::string bufferFilename = binFilename;
+      if (i > 0) {
+        bufferFilename.insert(
+            bufferFilename.size() - ext.size(), "_" + std::to_string(i));
+      }
+      if (!SerializeGltfBuffer(
+              model->buffers[i],
+              buffer,
+              JoinPath(baseDir, bufferFilename),
+              bufferFilename)) {
+        return false;
+      }
     }
     buffers.push_back(buffer);
   }
@@ -4688,8 +4702,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
     SerializeValue("extras", model->extras, output);
   }
 
-  WriteGltfFile(filename, output.dump());
-  return true;
+  return WriteGltfFile(filename, output.dump());
 }
 
 } // namespace tinygltf
-- 
2.43.0


From 49bceae97d54878abfb9e149a720a3a419d4dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 18/76] fix: a uri in a glTF file must not be expanded by the
 shell

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 25 +++-----------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index ead29b0..14c1019 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1591,28 +1591,9 @@ std::string ExpandFilePath(const std::string& filepath, void*) {
   // no expansion
   std::string s = filepath;
 #else
-  std::string s;
-  wordexp_t p;
-
-  if (filepath.empty()) {
-    return "";
-  }
-
-  // char** w;
-  int ret = wordexp(filepath.c_str(), &p, 0);
-  if (ret) {
-    // err
-    s = filepath;
-    return s;
-  }
-
-  // Use first element only.
-  if (p.we_wordv) {
-    s = std::string(p.we_wordv[0]);
-    wordfree(&p);
-  } else {
-    s = filepath;
-  }
+  // A uri is not a shell word: expanding it would split names with a space,
+  // and run the commands a model file contains.
+  std::string s = filepath;
 
 #endif
 
-- 
2.43.0


From 17d441cb4155504912b7f8afa48250cec4855329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 19/76] fix: loading a damaged glTF or GLB file must raise, not
 read out of bounds or abort

---
 sumo-api/sumo/threedee/gltf.pxd              |  4 +-
 sumo-api/sumo/threedee/gltf.pyx              |  4 +-
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 66 +++++++++++++++-----
 3 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/sumo-api/sumo/threedee/gltf.pxd b/sumo-api/sumo/threedee/gltf.pxd
index 4d38648..745d136 100644
--- a/sumo-api/sumo/threedee/gltf.pxd
+++ b/sumo-api/sumo/threedee/gltf.pxd
@@ -43,13 +43,13 @@ cdef extern from "sumo/threedee/tiny_gltf/tiny_gltf.h" namespace "tinygltf":
   cdef cppclass CTinyGLTF "tinygltf::TinyGLTF":
     CTinyGLTF() except +
     bool LoadASCIIFromFile(CGltfModel* model, string* err,
-                           const string& filename)
+                           const string& filename) except +
     bool WriteGltfSceneToFile(CGltfModel* model, const string& filename) except +
 
     bool LoadBinaryFromFile(
       CGltfModel* model,
       string* err,
-      const string& filename)
+      const string& filename) except +
 
 
 # Python wrapper classes:
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index ff857a0..ae265f5 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -70,10 +70,10 @@ cdef class TinyGLTF:
       cdef CGltfModel* c_model = model.c_ptr
       py_byte_string = path.encode('UTF-8')
       cdef bool ret = self.c_ptr.LoadBinaryFromFile(c_model, &err, py_byte_string)
-      # set the URI for the images
-      c_model.setURIs(b".png")
       if not ret:
           raise IOError("Failed to parse glb file {}.  Error = {}".format(path, err))
+      # set the URI for the images
+      c_model.setURIs(b".png")
       return model
 
   def write_gltf_scene_to_file(self, GltfModel model, unicode path):
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 14c1019..c7d9baa 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -320,13 +320,13 @@ class Value {
  protected:
   int type_;
 
-  int int_value_;
-  double number_value_;
+  int int_value_ = 0;
+  double number_value_ = 0;
   std::string string_value_;
   std::vector<unsigned char> binary_value_;
   Array array_value_;
   Object object_value_;
-  bool boolean_value_;
+  bool boolean_value_ = false;
 };
 
 #ifdef __clang__
@@ -361,12 +361,12 @@ TINYGLTF_VALUE_GET(Value::Object, object_value_)
 using ColorValue = std::array<double, 4>;
 
 struct Parameter {
-  bool bool_value;
+  bool bool_value = false;
   bool has_number_value = false;
   std::string string_value;
   std::vector<double> number_array;
   std::map<std::string, double> json_double_value;
-  double number_value;
+  double number_value = 0;
   // context sensitive methods. depending the type of the Parameter you are
   // accessing, these are either valid or not
   // If this parameter represent a texture map in a material, will return the
@@ -529,7 +529,7 @@ struct Accessor {
                   // are not supported
   std::string name;
   size_t byteOffset;
-  bool normalized; // optinal.
+  bool normalized = false; // optinal.
   int componentType; // (required) One of TINYGLTF_COMPONENT_TYPE_***
   size_t count; // required
   int type; // (required) One of TINYGLTF_TYPE_***   ..
@@ -2393,6 +2393,13 @@ static bool ParseBuffer(
     }
   }
 
+  if (!(byteLength >= 0 && byteLength <= UINT32_MAX)) {
+    if (err) {
+      (*err) += "Invalid `byteLength' in Buffer.\n";
+    }
+    return false;
+  }
+
   size_t bytes = static_cast<size_t>(byteLength);
   if (is_binary) {
     // Still binary glTF accepts external dataURI.
@@ -2410,8 +2417,10 @@ static bool ParseBuffer(
         }
       } else {
         // External .bin file.
-        LoadExternalFile(
-            &buffer->data, err, buffer->uri, basedir, bytes, true, fs);
+        if (!LoadExternalFile(
+                &buffer->data, err, buffer->uri, basedir, bytes, true, fs)) {
+          return false;
+        }
       }
     } else {
       // load data from (embedded) binary data
@@ -2436,7 +2445,7 @@ static bool ParseBuffer(
 
       // Read buffer data
       buffer->data.resize(static_cast<size_t>(byteLength));
-      memcpy(&(buffer->data.at(0)), bin_data, static_cast<size_t>(byteLength));
+      std::copy(bin_data, bin_data + bytes, buffer->data.begin());
     }
 
   } else {
@@ -3495,7 +3504,21 @@ bool TinyGLTF::LoadFromString(
 
           const BufferView& bufferView =
               model->bufferViews[size_t(image.bufferView)];
+          if (size_t(bufferView.buffer) >= model->buffers.size()) {
+            if (err) {
+              (*err) += "buffer of an image not found in the scene.\n";
+            }
+            return false;
+          }
           const Buffer& buffer = model->buffers[size_t(bufferView.buffer)];
+          if (bufferView.byteOffset > buffer.data.size() ||
+              bufferView.byteLength >
+                  buffer.data.size() - bufferView.byteOffset) {
+            if (err) {
+              (*err) += "bufferView of an image exceeds its buffer.\n";
+            }
+            return false;
+          }
 
           if (*LoadImageData == nullptr) {
             if (err) {
@@ -3508,7 +3531,7 @@ bool TinyGLTF::LoadFromString(
               err,
               image.width,
               image.height,
-              &buffer.data[bufferView.byteOffset],
+              buffer.data.data() + bufferView.byteOffset,
               static_cast<int>(bufferView.byteLength),
               load_image_user_data_);
           if (!ret) {
@@ -3798,7 +3821,7 @@ bool TinyGLTF::LoadBinaryFromMemory(
   // In case the Bin buffer is not present, the size is exactly 20 + size of
   // JSON contents,
   // so use "greater than" operator.
-  if ((20 + model_length > size) || (model_length < 1) ||
+  if ((model_length > size - 20) || (model_length < 1) ||
       (model_format != 0x4E4F534A)) { // 0x4E4F534A = JSON format.
     if (err) {
       (*err) = "Invalid glTF binary.";
@@ -3811,9 +3834,22 @@ bool TinyGLTF::LoadBinaryFromMemory(
       reinterpret_cast<const char*>(&bytes[20]), model_length);
 
   is_binary_ = true;
-  bin_data_ = bytes + 20 + model_length +
-      8; // 4 bytes (buffer_length) + 4 bytes(buffer_format)
-  bin_size_ = length - (20 + model_length); // extract header + JSON scene data.
+  bin_data_ = nullptr;
+  bin_size_ = 0;
+  if (size - 20 - model_length >= 8) {
+    // 4 bytes (buffer_length) + 4 bytes(buffer_format)
+    unsigned int bin_length;
+    memcpy(&bin_length, bytes + 20 + model_length, 4);
+    swap4(&bin_length);
+    if (bin_length > size - 20 - model_length - 8) {
+      if (err) {
+        (*err) = "Truncated glTF binary.";
+      }
+      return false;
+    }
+    bin_data_ = bytes + 20 + model_length + 8;
+    bin_size_ = bin_length;
+  }
 
   bool ret = LoadFromString(
       model,
@@ -3862,7 +3898,7 @@ bool TinyGLTF::LoadBinaryFromFile(
   bool ret = LoadBinaryFromMemory(
       model,
       err,
-      &data.at(0),
+      data.data(),
       static_cast<unsigned int>(data.size()),
       basedir,
       check_sections);
-- 
2.43.0


From cda03b6c86f8635e8f99a1ec1abbb4ae7b7ea352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 20/76] fix: accessors must honor strides and element types and
 stay inside their buffer

---
 sumo-api/sumo/threedee/GltfModel.cpp  | 28 +++++++++++++---
 sumo-api/sumo/threedee/GltfModel.h    | 48 ++++++++++++++++++++++-----
 sumo-api/sumo/threedee/gltf_model.pyx |  4 +++
 3 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 51a98d0..4f2f24e 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -8,6 +8,7 @@ LICENSE file in the root directory of this source tree.
 #include <algorithm>
 #include <iostream>
 #include <limits>
+#include <memory>
 #include <string>
 
 #include "GltfModel.h"
@@ -250,7 +251,8 @@ cv::Mat3b GltfModel::extractTexture(int textureId) const {
   const tinygltf::Texture& texture = this->textures[textureId];
 
   // Get image
-  if (texture.source >= static_cast<int>(this->images.size())) {
+  if (texture.source < 0 ||
+      texture.source >= static_cast<int>(this->images.size())) {
     throw runtime_error("GltfModel::extractTexture: invalid texture found.");
   }
   const tinygltf::Image& image = this->images[texture.source];
@@ -401,6 +403,12 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
     vector<Mesh::Index> mesh_indices(
         short_indices.begin(), short_indices.end());
     mesh->indices_ = mesh_indices;
+  } else if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_BYTE) {
+    auto byte_indices =
+        getAccessor<unsigned char>(*this, indicesAccessorIndex).asVector();
+    mesh->indices_.assign(byte_indices.begin(), byte_indices.end());
+  } else if (component_type != TINYGLTF_COMPONENT_TYPE_UNSIGNED_INT) {
+    throw runtime_error("GltfModel::extractPrimitiveMesh: bad index type.");
   } else {
     auto indexAccessor = getAccessor<unsigned int>(*this, indicesAccessorIndex);
     mesh->indices_ = indexAccessor.asVector();
@@ -409,6 +417,12 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
   int vertexAccessorIndex = primitive.attributes.at("POSITION");
   auto vertexAccessor = getAccessor<Mesh::Vertex>(*this, vertexAccessorIndex);
   mesh->vertices_ = vertexAccessor.asVector();
+  for (Mesh::Index index : mesh->indices_) {
+    if (index >= mesh->vertices_.size()) {
+      throw runtime_error(
+          "GltfModel::extractPrimitiveMesh: index exceeds vertices.");
+    }
+  }
   // Get normals
   int normalAccessorIndex = primitive.attributes.at("NORMAL");
   auto normalAccessor = getAccessor<Mesh::Vertex>(*this, normalAccessorIndex);
@@ -471,21 +485,25 @@ void GltfModel::extractTexturedPrimitiveMesh(
 }
 
 vector<Mesh*> GltfModel::getPolymorphicPrimitiveMeshes() const {
-  vector<Mesh*> meshes;
+  vector<unique_ptr<Mesh>> meshes; // owned, as extracting can throw
   for (size_t i = 0; i < this->numPrimitiveMeshes(); i++) {
     const tinygltf::Primitive& primitive = this->getPrimitiveMesh(i);
     // Distinguish textured mesh or mesh by whether it has texture coords
     if (primitive.attributes.find("TEXCOORD_0") != primitive.attributes.end()) {
       auto mesh = new TexturedMesh();
+      meshes.emplace_back(mesh);
       extractTexturedPrimitiveMesh(i, mesh);
-      meshes.push_back(mesh);
     } else {
       auto mesh = new Mesh();
+      meshes.emplace_back(mesh);
       extractPrimitiveMesh(i, mesh);
-      meshes.push_back(mesh);
     }
   }
-  return meshes;
+  vector<Mesh*> released;
+  for (auto& mesh : meshes) {
+    released.push_back(mesh.release());
+  }
+  return released;
 }
 
 void GltfModel::setURIs(const string& extension) {
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 9756763..9e9b70d 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -17,6 +17,7 @@ LICENSE file in the root directory of this source tree.
 
 #include <Eigen/Core>
 
+#include <cstring>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -194,8 +195,7 @@ class GltfModel : public tinygltf::Model {
 
 /**
  * Class for getting elements from buffers associated with an object.
- * Accesses scalar values only, and does no bounds checking on access.
- * TODO: fix that, and make working with strides.
+ * Throws when the elements are not of type T or do not lie in the buffer.
  */
 template <class T>
 class GltfAccessor {
@@ -231,7 +231,9 @@ class GltfAccessor {
     if (j >= tinyAccessor_.count) {
       throw std::invalid_argument("GltfAccessor[]: invalid element index");
     }
-    return pointer_[j];
+    T value;
+    memcpy(&value, pointer_ + j * stride_, sizeof(T));
+    return value;
   }
 
   // Return all elements in an STL vector
@@ -251,23 +253,51 @@ class GltfAccessor {
  private:
   // Calculate pointer_, assumes tinyAccessor_ is initialized correctly
   void calculatePointer(const GltfModel& object) {
-    if (tinyAccessor_.bufferView >=
-        static_cast<int>(object.bufferViews.size())) {
+    if (tinyAccessor_.bufferView < 0 ||
+        tinyAccessor_.bufferView >=
+            static_cast<int>(object.bufferViews.size())) {
       throw std::invalid_argument("GltfAccessor: invalid bufferView index");
     }
     const tinygltf::BufferView& view =
         object.bufferViews[tinyAccessor_.bufferView];
 
-    if (view.buffer >= static_cast<int>(object.buffers.size())) {
+    if (view.buffer < 0 ||
+        view.buffer >= static_cast<int>(object.buffers.size())) {
       throw std::invalid_argument("GltfAccessor: invalid buffer index");
     }
     const tinygltf::Buffer& buffer = object.buffers[view.buffer];
-    pointer_ = reinterpret_cast<const T*>(
-        buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset);
+
+    // Check that elements (or their components, when accessing those) have the
+    // size of T, and that all lie in the buffer
+    tinygltf::BufferView packed = view;
+    packed.byteStride = 0;
+    if (tinyAccessor_.ByteStride(packed) == static_cast<int>(sizeof(T))) {
+      stride_ = view.byteStride == 0 ? sizeof(T) : view.byteStride;
+    } else if (
+        tinygltf::GetComponentSizeInBytes(tinyAccessor_.componentType) ==
+        static_cast<int>(sizeof(T))) {
+      stride_ = sizeof(T);
+    } else {
+      throw std::invalid_argument("GltfAccessor: unexpected element type");
+    }
+    const size_t size = buffer.data.size();
+    const size_t count = tinyAccessor_.count;
+    if (view.byteOffset > size ||
+        tinyAccessor_.byteOffset > size - view.byteOffset) {
+      throw std::invalid_argument("GltfAccessor: offset exceeds buffer");
+    }
+    const size_t available = size - view.byteOffset - tinyAccessor_.byteOffset;
+    if (count > 0 &&
+        (available < sizeof(T) ||
+         count - 1 > (available - sizeof(T)) / stride_)) {
+      throw std::invalid_argument("GltfAccessor: elements exceed buffer");
+    }
+    pointer_ = buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset;
   }
 
   tinygltf::Accessor tinyAccessor_; // underlying tinygltf::Accessor
-  const T* pointer_; // pointer to associated memory
+  const unsigned char* pointer_; // pointer to associated memory
+  size_t stride_; // number of bytes between consecutive elements
 };
 
 /**
diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index b23639d..2de4f31 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -154,10 +154,14 @@ cdef class GltfModel:
 
     def image_size(self, size_t i):
         """Return size of image with index <i>."""
+        if i >= self.c_ptr.images.size():
+            raise IndexError("image index out of range")
         return self.c_ptr.images[i].image.size()
 
     def image_uri(self, size_t i):
         """Return URI of image with index <i>."""
+        if i >= self.c_ptr.images.size():
+            raise IndexError("image index out of range")
         bytes = self.c_ptr.images[i].uri
         return bytes.decode('UTF-8')
 
-- 
2.43.0


From 8b3542e0a0f536c72fb5b10b528994464f5ac8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:29 +0000
Subject: [PATCH 21/76] fix: mesh operations must not corrupt memory on self,
 short uv or bad index arguments

---
 sumo-api/sumo/threedee/Mesh.cpp          | 27 ++++++++++++++++++++++++
 sumo-api/sumo/threedee/TexturedMesh.cpp  | 23 ++++++++++++++++++--
 sumo-api/sumo/threedee/mesh.pxd          | 12 +++++------
 sumo-api/sumo/threedee/textured_mesh.pxd |  8 +++----
 4 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index deaeb98..83c9be6 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -15,6 +15,8 @@ LICENSE file in the root directory of this source tree.
 #include "Mesh.h"
 
 #include <math.h>
+#include <stdexcept>
+#include <string>
 
 namespace sumo {
 
@@ -28,9 +30,21 @@ Mesh::Mesh(
   assert(vertices.size() == normals.size());
 }
 
+// Throw if an index does not refer to one of the vertices.
+static void checkIndices(
+    const vector<Mesh::Index>& indices,
+    const vector<Mesh::Vertex>& vertices) {
+  for (const Mesh::Index index : indices) {
+    if (index >= vertices.size()) {
+      throw out_of_range("Mesh: index " + to_string(index) + " has no vertex.");
+    }
+  }
+}
+
 vector<Mesh::Normal> Mesh::CalculateFaceNormals(
     const vector<Index>& indices,
     const vector<Vertex>& vertices) {
+  checkIndices(indices, vertices);
   vector<Normal> faceNormals;
   const size_t numTriangles = indices.size() / 3;
   faceNormals.reserve(numTriangles);
@@ -76,6 +90,7 @@ vector<Mesh::Normal> Mesh::EstimateNormals(
 }
 
 void Mesh::cleanupLongEdges(float threshold) {
+  checkIndices(indices_, vertices_);
   vector<Index> new_indices;
   new_indices.reserve(numIndices());
   // define distance function
@@ -96,6 +111,7 @@ void Mesh::cleanupLongEdges(float threshold) {
 }
 
 void Mesh::cleanupEdgesToOrigin(const double precision) {
+  checkIndices(indices_, vertices_);
   vector<Index> new_indices;
   new_indices.reserve(numIndices());
   // loop over all triangles in this mesh
@@ -148,6 +164,13 @@ Mesh Mesh::Example(
 }
 
 void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
+  if (numCommonVertices > numVertices()) {
+    throw invalid_argument("Mesh::merge: more common vertices than vertices.");
+  }
+  if (&mesh2 == this) {
+    return merge(Mesh(mesh2), numCommonVertices); // do not append to ourselves
+  }
+
   // Merge the indices.
   const size_t offset = numVertices() - numCommonVertices;
   for (const size_t& index2 : mesh2.indices()) {
@@ -165,6 +188,10 @@ void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
 }
 
 void Mesh::replaceGeometry(const Mesh& mesh2) {
+  if (&mesh2 == this) {
+    return;
+  }
+
   //Replace the geometry of the mesh.
   indices_.clear();
   vertices_.clear();
diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index 95fe44a..e316be6 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -44,6 +44,15 @@ TexturedMesh::TexturedMesh(
 void TexturedMesh::renumber(
     size_t numNewVertices,
     vector<Index> vertexRenumbering) {
+  if (vertexRenumbering.size() > uvCoords_.size()) {
+    throw invalid_argument("TexturedMesh::renumber: too many new indices.");
+  }
+  for (const Index index : vertexRenumbering) {
+    if (index >= numNewVertices) {
+      throw invalid_argument("TexturedMesh::renumber: invalid new index.");
+    }
+  }
+
   // renumber indices
   vector<Index> newIndices;
   newIndices.reserve(indices_.size());
@@ -76,19 +85,29 @@ void TexturedMesh::renumber(
 }
 
 void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
+  if (&mesh2 == this) {
+    return merge(TexturedMesh(mesh2), numCommonVertices);
+  }
+
   // Call base class method
+  const size_t numVertices1 = numVertices();
   Mesh::merge(mesh2, numCommonVertices);
 
-  // Treat the case when mesh2 defines new vertices.
-  if (mesh2.numVertices() > numCommonVertices) {
+  // Treat the case when mesh2 defines new vertices. Not all vertices have uv
+  // coordinates, but those of mesh2 have to stay with their vertices.
+  if (mesh2.uvCoords().size() > numCommonVertices) {
     const auto append = [numCommonVertices](auto& a, const auto& b) {
       a.insert(a.end(), b.begin() + numCommonVertices, b.end());
     };
+    uvCoords_.resize(numVertices1, UVCoord(0, 0));
     append(uvCoords_, mesh2.uvCoords());
   }
 }
 
 void TexturedMesh::replaceGeometry(const TexturedMesh& mesh2) {
+  if (&mesh2 == this) {
+    return;
+  }
   indices_.clear();
   vertices_.clear();
   normals_.clear();
diff --git a/sumo-api/sumo/threedee/mesh.pxd b/sumo-api/sumo/threedee/mesh.pxd
index 7005834..2c1a13e 100644
--- a/sumo-api/sumo/threedee/mesh.pxd
+++ b/sumo-api/sumo/threedee/mesh.pxd
@@ -29,15 +29,15 @@ cdef extern from "sumo/threedee/Mesh.h" namespace "sumo":
     const vector[CVector3f]& vertices() const
     const vector[CVector3f]& normals() const
     @staticmethod
-    vector[CVector3f] CalculateFaceNormals(const vector[unsigned int]&, const vector[CVector3f]&)
+    vector[CVector3f] CalculateFaceNormals(const vector[unsigned int]&, const vector[CVector3f]&) except +
     @staticmethod
-    vector[CVector3f] EstimateNormals(const vector[unsigned int]&, const vector[CVector3f]&)
+    vector[CVector3f] EstimateNormals(const vector[unsigned int]&, const vector[CVector3f]&) except +
     @staticmethod
     CMesh Example(double, bool)
-    void cleanupLongEdges(float threshold)
-    void cleanupEdgesToOrigin()
-    void merge(const CMesh&, size_t)
-    void replaceGeometry(const CMesh&)
+    void cleanupLongEdges(float threshold) except +
+    void cleanupEdgesToOrigin() except +
+    void merge(const CMesh&, size_t) except +
+    void replaceGeometry(const CMesh&) except +
     bool hasSameMaterial(const CMesh&) const
 
 # Python wrapper class storing a pointer:
diff --git a/sumo-api/sumo/threedee/textured_mesh.pxd b/sumo-api/sumo/threedee/textured_mesh.pxd
index 2b57385..c206e64 100644
--- a/sumo-api/sumo/threedee/textured_mesh.pxd
+++ b/sumo-api/sumo/threedee/textured_mesh.pxd
@@ -25,10 +25,10 @@ cdef extern from "sumo/threedee/TexturedMesh.h" namespace "sumo":
     const vector[CVector2f]& uvCoords() const
     const Mat3b& baseColorTexture() const
     const Mat3b& metallicRoughnessTexture() const
-    void renumber(size_t, vector[unsigned int])
-    void merge(const CTexturedMesh&, size_t)
-    void replaceGeometry(const CTexturedMesh&)
-    bool hasDualTextureMaterial() const
+    void renumber(size_t, vector[unsigned int]) except +
+    void merge(const CTexturedMesh&, size_t) except +
+    void replaceGeometry(const CTexturedMesh&) except +
+    bool hasDualTextureMaterial() except +
 
 # Python wrapper class storing a pointer:
 cdef class TexturedMesh(Mesh):
-- 
2.43.0


From 8f03548adeb2e438c73ccd3614027275c05accf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 22/76] fix: has_same_material must compare the factors of the
 material

---
 sumo-api/sumo/threedee/Mesh.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index 83c9be6..15791c0 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -201,17 +201,15 @@ void Mesh::replaceGeometry(const Mesh& mesh2) {
 
 }
 
-  /// Operator == for Parameter
-  // ::: TODO: This function is not correct.  It does not check all aspects
-  // of the parameter struct.  Furthermore, some aspects of the Parameter
-  // struct are unstable (that is, they are not initialized to known values,
-  // so comparing two Parameter objects is not really feasible with the
-  // tiny_gltf design.
+/// Operator == for Parameter
 static bool parametersEqual(
     const tinygltf::Parameter& a,
     const tinygltf::Parameter& b) {
   return
     a.has_number_value == b.has_number_value &&
+    a.number_value == b.number_value &&
+    a.bool_value == b.bool_value &&
+    a.number_array == b.number_array &&
     a.string_value == b.string_value &&
     a.json_double_value == b.json_double_value;
 }
-- 
2.43.0


From 219ffc6535a031b13920c7c8da348f24f8c80feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 23/76] fix: a glTF material must not refer to the texture that
 a mesh lacks

---
 sumo-api/sumo/threedee/GltfModel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 4f2f24e..bb7320c 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -333,6 +333,8 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
     } else {
       throw runtime_error("addTexturedPrimitiveMesh: inconsistent material.");
     }
+  } else {
+    material.values.erase("baseColorTexture");
   }
 
   // Add metallic/roughness if it exists in mesh
@@ -345,6 +347,8 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
     } else {
       throw runtime_error("addTexturedPrimitiveMesh: inconsistent material.");
     }
+  } else {
+    material.values.erase("metallicRoughnessTexture");
   }
   this->materials.pop_back();
   this->materials.push_back(material);
-- 
2.43.0


From b9ff54a5e90843630fe3b895e4b1d71d4f482ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 24/76] fix: model sampler must look up v along texture rows, u
 along columns, and accept empty models

---
 sumo-api/sumo/threedee/model_sampler.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index 6db6298..1d66ce6 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -31,7 +31,7 @@ class ModelSampler(object):
         # count the # of faces in all the component meshes
         # and allocate space for faces
         counts = [m.num_indices() for m in model.primitive_meshes()]
-        n_faces3 = np.sum(counts)  # 3 x num faces
+        n_faces3 = sum(counts)  # 3 x num faces
         faces = np.zeros((n_faces3, 6))
 
         # build faces list from element component meshes
@@ -54,8 +54,9 @@ class ModelSampler(object):
             else:
                 uv_coords = mesh.uv_coords()  # 2 x N_verts
                 temp2 = uv_coords[:, mesh.indices()]  # 2 x N_indices
-                r = np.mod(np.floor(temp2[0,:] * h).astype(int), h)  # 1 x n_vertices
-                c = np.mod(np.floor(temp2[1,:] * w).astype(int), w)  # "
+                # u runs along the columns of the texture, v along its rows
+                c = np.mod(np.floor(temp2[0,:] * w).astype(int), w)  # 1 x n_vertices
+                r = np.mod(np.floor(temp2[1,:] * h).astype(int), h)  # "
                 colors = mesh.base_color()[r, c, :]
 
             faces[start:start+counts[i], 3:6] = colors
@@ -102,7 +103,7 @@ def _sample_mesh(faces, density=625):
     N = np.sum(Nsamples_per_face)  # N = total # of samples
 
     if N == 0:
-        return np.empty((0, 3))
+        return np.empty((0, faces.shape[1]))
 
     face_ids = np.zeros((N,), dtype=int)  # reserve space for result
 
-- 
2.43.0


From 8b2b888ebe9b7c68f43d241db677e4a15e349d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 25/76] fix: comparing symmetries with != must not recurse,
 unknown symmetry XML must raise

---
 sumo-api/sumo/semantic/object_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 814dff4..3d80702 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -93,7 +93,7 @@ class ObjectSymmetry(object):
         )
 
     def __ne__(self, other):
-        return self != other
+        return not self == other
 
     @property
     def x_symmetry(self):
@@ -190,7 +190,7 @@ class ObjectSymmetry(object):
             return objectSymmetry
 
         except ValueError:
-            RuntimeError("Could not parse symmetry element.")
+            raise RuntimeError("Could not parse symmetry element.")
 
     def to_xml(self):
         """
-- 
2.43.0


From be3542c62c6575edf42a8cc73cc82af9e2938093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 26/76] fix: an element without id must raise ValueError

---
 sumo-api/sumo/semantic/project_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 45f7743..c2e3467 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -340,6 +340,8 @@ class ProjectObject(object):
 
         # defaults
         proxy = ProjectObject(1)
+        id = None
+        bounds = proxy.bounds
         category = proxy.category
         pose = proxy.pose
         symmetry = proxy.symmetry
-- 
2.43.0


From 4ee2e731cc1215ffac303d06c7ee4d62607ec840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 27/76] fix: transform_pose must keep settings and container;
 scenes must not share default settings; bad project xml is a ValueError

---
 sumo-api/sumo/semantic/project_scene.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index c78616e..a2c20d7 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -45,7 +45,7 @@ class ProjectScene(object):
             raise ValueError("Project type ({}) must be one of 'bounding_box', \
 'voxels', or 'mesh'".format(project_type))
         self.project_type = project_type
-        self.settings = settings if settings is not None else DEFAULT_SETTINGS
+        self.settings = settings if settings is not None else dict(DEFAULT_SETTINGS)
         self.elements = elements if elements is not None else ProjectObjectDict()
 
     def transform_pose(self, nTo):
@@ -57,8 +57,11 @@ class ProjectScene(object):
         Output: new_project_scene - new ProjectScene instance with
             transformed pose.
         """
-        new_elements = {k: PO.transform_pose(nTo) for (k, PO) in self.elements.items()}
-        return ProjectScene(project_type=self.project_type, elements=new_elements)
+        new_elements = ProjectObjectDict()
+        for (k, PO) in self.elements.items():
+            new_elements[k] = PO.transform_pose(nTo)
+        return ProjectScene(project_type=self.project_type, elements=new_elements,
+            settings=dict(self.settings))
 
     def save(self, path, project_name):
         """
@@ -132,7 +135,10 @@ class ProjectScene(object):
         project_dir = os.path.join(path, project_name)
 
         # Read xml from file
-        xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        try:
+            xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        except ET.ParseError as e:
+            raise ValueError("could not parse xml: " + str(e))
 
         # parse xml tree
         root = xml_tree.getroot()
@@ -159,6 +165,7 @@ class ProjectScene(object):
             raise ValueError("xml is missing project_type tag")
 
         # extract elements
+        elements = None
         for element in root:
             if element.tag == "elements":
                 elements = ProjectObjectDict.load(
-- 
2.43.0


From e53d7b7ee803f90cd98a955838764962b6a33e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 28/76] fix: voxel grid must keep its voxels when one axis
 grows, and report file errors

---
 sumo-api/sumo/threedee/voxel_grid.py | 59 ++++++++++++++++++----------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 9d580c3..0d4d0da 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -61,7 +61,7 @@ class VoxelGrid(object):
             raise ValueError("voxel_size must be > 0")
         self._scale = 1 / voxel_size  # store inverse voxel size for efficiency
         self._min_corner = min_corner if min_corner is not None else Vector3f(0, 0, 0)
-        self._voxels_3d = np.zeros((0, 3))  # voxels in Nx3 array format
+        self._voxels_3d = np.zeros((0, 3), dtype='int32')  # voxels in Nx3 array format
         self._size_x, self._size_y = 0, 0  # x, y size of voxel space
 
         if points is not None:
@@ -119,15 +119,22 @@ class VoxelGrid(object):
         # convert points to voxel coordinates
         # voxel_index = floor((point - min_corner) * scale)
         n_points = points.shape[0]
+        if n_points == 0:
+            return
         min_corner = np.tile(self._min_corner, (n_points, 1))
         new_voxels_3d = np.floor((points - min_corner) * self._scale).astype('int32')  # Nx3
         if (np.amin(new_voxels_3d) < 0):
             raise ValueError("Point coordinates must be >= min_corner")
 
         # Check if voxel space dimensions have increased
-        (new_size_x, new_size_y, _) = np.amax(new_voxels_3d, 0) + 1
-        if (new_size_x > self._size_x) or (new_size_y > self._size_y):
-            self._size_x, self._size_y = new_size_x, new_size_y
+        # (Python ints, because the products of the sizes may not fit in an int32)
+        (size_x, size_y, size_z) = [int(i) + 1 for i in np.amax(new_voxels_3d, 0)]
+        size_x, size_y = max(size_x, int(self._size_x)), max(size_y, int(self._size_y))
+        if self._voxels_3d.shape[0] > 0:
+            size_z = max(size_z, int(np.amax(self._voxels_3d[:, 2])) + 1)
+        if size_x * size_y * size_z > np.iinfo('int64').max:
+            raise ValueError("Point coordinates are too far from min_corner")
+        self._size_x, self._size_y = size_x, size_y
 
         # convert the voxel_index to 1D and merge
         old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
@@ -172,16 +179,17 @@ class VoxelGrid(object):
         Exceptions:
         IOError - if file cannot be written.
         """
+        if not filename.endswith(".h5"):
+            filename += ".h5"
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
-            f = h5py.File(filename, "w")
+            with h5py.File(filename, "w") as f:
+                f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
+                f.attrs["scale"] = self._scale
+                f.attrs["min_corner"] = self._min_corner
+                f.attrs["size_x"] = self._size_x
+                f.attrs["size_y"] = self._size_y
         except Exception as e:
-            IOError("voxel file write failed. Err: " + str(e))
-        f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
-        f.attrs["scale"] = self._scale
-        f.attrs["min_corner"] = self._min_corner
-        f.attrs["size_x"] = self._size_x
-        f.attrs["size_y"] = self._size_y
-        f.close()
+            raise IOError("voxel file write failed. Err: " + str(e))
 
     def load(self, filename):
         """
@@ -194,15 +202,24 @@ class VoxelGrid(object):
         IOError - if file cannot be read.
         """
         try:
-            f = h5py.File(filename, "r")
+            with h5py.File(filename, "r") as f:
+                voxels_3d = np.array(f["voxels_3d"], np.int32)
+                scale = f.attrs["scale"]
+                min_corner = np.array(f.attrs["min_corner"])
+                size_x = int(f.attrs["size_x"])
+                size_y = int(f.attrs["size_y"])
         except Exception as e:
-            IOError("voxel file read failed. Err: " + str(e))
-        self._voxels_3d = np.array(f["voxels_3d"], np.int32)
-        self._scale = f.attrs["scale"]
-        self._min_corner = np.array(f.attrs["min_corner"])
-        self._size_x = f.attrs["size_x"]
-        self._size_y = f.attrs["size_y"]
-        f.close()
+            raise IOError("voxel file read failed. Err: " + str(e))
+        if voxels_3d.ndim != 2 or voxels_3d.shape[1] != 3 or min_corner.shape != (3,):
+            raise IOError("voxel file read failed. Err: unexpected shape")
+        if not np.all(scale > 0) or np.ndim(scale) != 0 or np.any(voxels_3d < 0) or \
+           np.any(voxels_3d[:, 0:2] >= (size_x, size_y)):
+            raise IOError("voxel file read failed. Err: inconsistent values")
+        self._voxels_3d = voxels_3d
+        self._scale = scale
+        self._min_corner = min_corner
+        self._size_x = size_x
+        self._size_y = size_y
 
 
 #------------- End of public interface ------------------------
@@ -223,7 +240,7 @@ def _linearize_voxels(voxels_3d, size_x, size_y):
     Formula is: i = z * size_y * size_x + y * size_x + x
     This does the reverse of _vectorize_voxels
     """
-    linearizer = np.array([[1], [size_x], [size_x * size_y]])  # 3x1
+    linearizer = np.array([[1], [size_x], [size_x * size_y]], dtype='int64')  # 3x1
     return np.matmul(voxels_3d, linearizer).squeeze()  # Nx3 * 3x1 => Nx1
 
 
-- 
2.43.0


From 7a760cf78a69bf81c07117caee20f4402bf84c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 29/76] fix: VoxelEvaluator must not exchange submission and
 ground truth

---
 sumo-api/sumo/metrics/voxel_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/voxel_evaluator.py b/sumo-api/sumo/metrics/voxel_evaluator.py
index f8dca81..ac5cedb 100644
--- a/sumo-api/sumo/metrics/voxel_evaluator.py
+++ b/sumo-api/sumo/metrics/voxel_evaluator.py
@@ -48,7 +48,7 @@ class VoxelEvaluator(Evaluator):
             posed_corners = e.pose.transform_all_from(bbox_corners)
             e.posed_bbox = ComputeBbox().from_point_cloud(posed_corners)
 
-        super(VoxelEvaluator, self).__init__(ground_truth, submission, settings)
+        super(VoxelEvaluator, self).__init__(submission, ground_truth, settings)
 
     def evaluate_all(self):
         """
-- 
2.43.0


From e14a7a48eed9a9a385c6f019e8b193a639925c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 30/76] fix: MeshEvaluator must accept default settings, empty
 models and look up textures by (v, u)

---
 sumo-api/sumo/metrics/mesh_evaluator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 93bdca7..aab8e7c 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -35,7 +35,7 @@ def sample_element(element, density=625):
     # count the # of faces in all the component meshes
     # and allocate space for faces
     counts = [m.num_indices() for m in element.meshes.primitive_meshes()]
-    n_faces3 = np.sum(counts)  # 3 x num faces
+    n_faces3 = sum(counts)  # 3 x num faces
     faces = np.zeros((n_faces3, 6))
 
     # build faces list from element component meshes
@@ -61,8 +61,9 @@ def sample_element(element, density=625):
         else:
             uv_coords = posed_mesh.uv_coords()  # 2 x N_verts
             temp2 = uv_coords[:, posed_mesh.indices()]  # 2 x N_indices
-            r = np.mod(np.floor(temp2[0, :] * h).astype(int), h)  # 1 x n_vertices
-            c = np.mod(np.floor(temp2[1, :] * w).astype(int), w)  # "
+            # u runs along the columns of the texture, v along its rows
+            c = np.mod(np.floor(temp2[0, :] * w).astype(int), w)  # 1 x n_vertices
+            r = np.mod(np.floor(temp2[1, :] * h).astype(int), h)  # "
             colors = posed_mesh.base_color()[r, c, :]
 
         faces[start:start + counts[i], 3:6] = colors
@@ -137,6 +138,9 @@ class MeshEvaluator(Evaluator):
         Evaluator.py for recognized keys and values.
         """
 
+        if settings is None:
+            settings = self.default_settings()
+
         # sample submission and GT and store in points field
         # also compute bounding box of each posed object
         for e in submission.elements.values():
-- 
2.43.0


From 6f9bc36d5360f5ea2dcc35a320a24d1cb0b8edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 31/76] fix: flat bounding boxes must not divide by zero

---
 sumo-api/sumo/metrics/bb_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/metrics/bb_evaluator.py b/sumo-api/sumo/metrics/bb_evaluator.py
index b98ec9c..0b87c00 100644
--- a/sumo-api/sumo/metrics/bb_evaluator.py
+++ b/sumo-api/sumo/metrics/bb_evaluator.py
@@ -104,6 +104,8 @@ class BBEvaluator(Evaluator):
         # or maybe vertex ordering
         intersection = abs(inter_mesh.volume)
         union = abs(box1.volume) + abs(box2.volume) - intersection
+        if union == 0:
+            return 0
         return intersection / union
 
 
-- 
2.43.0


From aff71e00e2f098a276d69b820240de7b520a7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 32/76] fix: quat_to_euler must not leave the domain of asin by
 rounding

---
 sumo-api/sumo/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 4bc0528..0215dd3 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -145,7 +145,7 @@ def quat_to_euler(q):
     """
     return np.array([math.atan2(2 * (q[1] * q[2] + q[0] * q[3]),
                                 q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3]),
-                     math.asin(-2 * (q[1] * q[3] - q[0] * q[2])),
+                     math.asin(max(-1, min(1, -2 * (q[1] * q[3] - q[0] * q[2])))),
                      math.atan2(2 * (q[2] * q[3] + q[0] * q[1]),
                                 q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3])])
 
-- 
2.43.0


From a473fcb14f2eb82cf82dbd56318a5d50a713f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 33/76] fix: an evaluator must not change the settings it is
 given

---
 sumo-api/sumo/metrics/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index c562832..16b1969 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -57,7 +57,8 @@ class Evaluator():
         settings (dict) - configuration for the evaluator.  See top of
           file for recognized attributes and values.
         """
-        self._settings = self.default_settings() if settings is None else settings
+        # copied, so that the caller's settings are left as they are
+        self._settings = dict(self.default_settings() if settings is None else settings)
         self._settings["thresholds"] = np.sort(self._settings["thresholds"])
         self._submission = submission
         self._ground_truth = ground_truth
-- 
2.43.0


From 81d166011d583fd5ba256b2a99768f6b857921fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:21 +0000
Subject: [PATCH 34/76] fix: evaluate-one must accept scene paths with a
 trailing slash

---
 tools/evaluate-one.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/evaluate-one.py b/tools/evaluate-one.py
index c8b2100..d694478 100644
--- a/tools/evaluate-one.py
+++ b/tools/evaluate-one.py
@@ -26,8 +26,8 @@ def main():
     parser.add_argument("sub_scene", help="path to submitted scene")
     args = parser.parse_args()
 
-    (gt_dir, gt_scene_name) = os.path.split(args.gt_scene)
-    (sub_dir, sub_scene_name) = os.path.split(args.sub_scene)
+    (gt_dir, gt_scene_name) = os.path.split(os.path.normpath(args.gt_scene))
+    (sub_dir, sub_scene_name) = os.path.split(os.path.normpath(args.sub_scene))
     
     gt_scene = ProjectScene.load(gt_dir, gt_scene_name)
     sub_scene = ProjectScene.load(sub_dir, sub_scene_name)
-- 
2.43.0


From 1691e3469a5bbe05dedb95b1a7d121663a37e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:21 +0000
Subject: [PATCH 35/76] fix: rotation error must be zero for every pose
 equivalent under cylindrical symmetry

---
 sumo-api/sumo/metrics/evaluator.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index 16b1969..6d206f3 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -381,7 +381,10 @@ class Evaluator():
 
         # collect a list of equvalent rots for the target object in rots_to_check
         rots_to_check = [gt_element.pose.R]
-        for (axis, sym) in enumerate(sym_list):
+        # cylindrical symmetry comes last, because each of the other equivalent rots
+        # has its own best rotation about the cylinder's axis
+        for (axis, sym) in sorted(enumerate(sym_list),
+                key=lambda axis_sym: axis_sym[1] == SymmetryType.cylindrical):
             if sym == SymmetryType.spherical:
                 # spherical means 0 error
                 return 0
@@ -423,8 +426,8 @@ class Evaluator():
 
     def cylindrical_symmetric_rot(self, det_rot, gt_rot, axis):
         """
-        Compute rot that zeroes out the rotation error between
-        <det_rot> and <gt_rot> along axis <axis>.
+        Compute the rot closest to <det_rot> among those equivalent to <gt_rot>
+        under rotation about the object's own axis <axis>.
 
         Inputs
         det_rot (Rot3) - rotation for detection
@@ -432,18 +435,18 @@ class Evaluator():
         axis (int) - cylindrical rotation axis (0=x, 1=y, 2=z)
 
         Return:
-        Rot3 - new rotation matrix with gt set to det rotation on target axis
+        Rot3 - gt_rot rotated about <axis> so that it is closest to det_rot
 
         Algorithm:
-        1. convert to zyx Euler angles
-        2. set gt to detection value for target axis
-        3. convert back to matrix rep
-        """
-        det_euler = utils.matrix_to_euler(det_rot.R)
-        gt_euler = utils.matrix_to_euler(gt_rot.R)
-        # note e[0] is z
-        gt_euler[2 - axis] = det_euler[2 - axis]
-        return Rot3(utils.euler_to_matrix(gt_euler))
+        With M = det^T * gt, the trace of M * Rot(axis, theta), which is largest where
+        the rotation between them is smallest, is
+        (M_ii + M_jj) * cos(theta) + (M_ij - M_ji) * sin(theta) + M_axis,axis
+        where i, j are the two axes following <axis> cyclically.
+        """
+        M = np.matmul(det_rot.R.T, gt_rot.R)
+        i, j = (axis + 1) % 3, (axis + 2) % 3
+        theta = math.atan2(M[i, j] - M[j, i], M[i, i] + M[j, j])
+        return self.symmetric_rot(gt_rot, axis, theta)
 
     def rms_points_error(self):
         """
-- 
2.43.0


From aff8abe595aebec4eb6aad5298525311d0cf1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:26 +0000
Subject: [PATCH 36/76] fix: a model with a material without properties must be
 readable after saving

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index c7d9baa..3b9d15b 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4601,7 +4601,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->materials.size()) {
     json materials;
     for (unsigned int i = 0; i < model->materials.size(); ++i) {
-      json material;
+      json material = json::object(); // may have no properties
       SerializeGltfMaterial(model->materials[i], material);
       materials.push_back(material);
     }
-- 
2.43.0


From ac47b7856cedb7040458bec8a1d564c8d7de6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:26 +0000
Subject: [PATCH 37/76] fix: single precision box corners must be written
 exactly

---
 sumo-api/sumo/base/vector.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index c4ef818..da68fd3 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -174,7 +174,7 @@ def text_of_vector(v):
     Comma separated text from which the elements of vector <v> are recovered
     exactly, whatever numpy's print options are.
     """
-    v = np.ravel(v)
+    v = np.ravel(v).astype(float)  # shorter text of a float32 is another double
     with np.printoptions(precision=25, floatmode='maxprec', suppress=False,
                          sign='-', nanstr='nan', infstr='inf', formatter=None,
                          threshold=v.size + 1, linewidth=1000, legacy=False):
-- 
2.43.0


From 3958d1a08396700ea0abda985451d26910c5a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:26 +0000
Subject: [PATCH 38/76] fix: a new glTF model must have a defined default scene

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 3b9d15b..ca6e680 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -745,7 +745,7 @@ class Model {
   std::vector<Light> lights;
   ExtensionMap extensions;
 
-  int defaultScene;
+  int defaultScene = -1;
   std::vector<std::string> extensionsUsed;
   std::vector<std::string> extensionsRequired;
 
-- 
2.43.0


From f273abf8b8ea6b63565f7e3785a9567b546895ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:26 +0000
Subject: [PATCH 39/76] fix: an updated material's texture must not refer to a
 sampler that the model lacks

---
 sumo-api/sumo/threedee/GltfModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index bb7320c..4342bbe 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -647,7 +647,7 @@ size_t GltfModel::loadTexture(
   // Add texture
   tinygltf::Texture texture;
   texture.source = this->images.size() - 1;
-  texture.sampler = 0;  // Default sampler.
+  texture.sampler = this->samplers.empty() ? -1 : 0;  // Default sampler.
   this->textures.push_back(texture);
 
   // Return texture id
-- 
2.43.0


From 702b095dd2f4f8798ea5bb889c132528dc9d051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:18 +0000
Subject: [PATCH 40/76] fix: integer matrices must keep their text without
 decimal points

---
 sumo-api/sumo/base/vector.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index da68fd3..582762a 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -174,7 +174,9 @@ def text_of_vector(v):
     Comma separated text from which the elements of vector <v> are recovered
     exactly, whatever numpy's print options are.
     """
-    v = np.ravel(v).astype(float)  # shorter text of a float32 is another double
+    v = np.ravel(v)
+    if v.dtype.kind == "f":
+        v = v.astype(float)  # shorter text of a float32 is another double
     with np.printoptions(precision=25, floatmode='maxprec', suppress=False,
                          sign='-', nanstr='nan', infstr='inf', formatter=None,
                          threshold=v.size + 1, linewidth=1000, legacy=False):
-- 
2.43.0


From 4bb26ea0a3b42034778f46efb7ceb8d7660d012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 41/76] fix: Euler angles at gimbal lock must describe the
 rotation they come from

---
 sumo-api/sumo/metrics/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 0215dd3..17e6b9c 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -143,9 +143,14 @@ def quat_to_euler(q):
     atan2( 2*(qy.*qz+qw.*qx), qw.^2 - qx.^2 - qy.^2 + qz.^2 )];
 
     """
+    sin_y = max(-1, min(1, -2 * (q[1] * q[3] - q[0] * q[2])))
+    if abs(sin_y) > 1 - 1e-14:
+        # gimbal lock: only the sum or difference of z and x is defined
+        z = 2 * math.atan2(q[3], q[0])
+        return np.array([math.atan2(math.sin(z), math.cos(z)), math.asin(sin_y), 0.0])
     return np.array([math.atan2(2 * (q[1] * q[2] + q[0] * q[3]),
                                 q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3]),
-                     math.asin(max(-1, min(1, -2 * (q[1] * q[3] - q[0] * q[2])))),
+                     math.asin(sin_y),
                      math.atan2(2 * (q[2] * q[3] + q[0] * q[1]),
                                 q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3])])
 
-- 
2.43.0


From 36e727b5b2b9162459a1eea1d3bce7bfc4db5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:29 +0000
Subject: [PATCH 42/76] fix: Mesh.cube must define its triangles

---
 sumo-api/sumo/threedee/mesh.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 9b6b806..f8b64f0 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -122,6 +122,9 @@ cdef class Mesh:
       # Create 2D mesh
       cdef size_t j = 0
       indices = np.empty((36,), dtype=np.uint32)
+      for i in range(6): # BACK, LEFT, FRONT, RIGHT, UP, DOWN
+        j = 4*i
+        indices[i*6:i*6+6] = [j+0, j+1, j+2,  j+1, j+3, j+2]
 
       # Create 3D mesh in OpenGL frame, Y is up, positive Z is back
       # Face order is BACK, LEFT, FRONT, RIGHT, UP, DOWN
-- 
2.43.0


From a9eff049a02a1117a56462f046d6ce14df4c6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:53 +0000
Subject: [PATCH 43/76] fix: renumbering must not expose uninitialised vertices

---
 sumo-api/sumo/threedee/TexturedMesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index e316be6..7e08fb7 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -69,7 +69,8 @@ void TexturedMesh::renumber(
   // error that gives error (numRenumbered is not captured)
   const auto assemble = [numRenumbered, vertexRenumbering, numNewVertices]
     (auto& a, auto& b) {
-    a.resize(numNewVertices);
+    // new vertices without an old one are zero
+    a.resize(numNewVertices, decay_t<decltype(b[0])>::Zero());
     for (size_t i = 0; i < numRenumbered; i++) {
       a[vertexRenumbering[i]] = b[i];
     }
-- 
2.43.0


From 575c079cbbf724f20caf6373e6a730aeb1d3dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:55 +0000
Subject: [PATCH 44/76] fix: a new texture must not take the file name of a
 loaded one

---
 sumo-api/sumo/threedee/GltfModel.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 4342bbe..44ed453 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -189,10 +189,24 @@ int GltfModel::pushData(int target, const vector<T>& values) {
   return addAccessor<T>(values, bufferViewIndex);
 }
 
+// Sequentially numbered file name that no image has yet (loaded ones can have
+// any name)
+static string newImageURI(const vector<tinygltf::Image>& images) {
+  for (size_t i = images.size();; i++) {
+    const string uri = to_string(i) + ".png"; // Matches saveImages
+    if (none_of(
+            images.begin(), images.end(), [&uri](const tinygltf::Image& image) {
+              return image.uri == uri;
+            })) {
+      return uri;
+    }
+  }
+}
+
 int GltfModel::addTexture(const cv::Mat3b& cvImage) {
   // Add image
   tinygltf::Image image;
-  image.uri = to_string(images.size()) + ".png"; // Matches saveImages
+  image.uri = newImageURI(this->images);
   image.width = cvImage.cols;
   image.height = cvImage.rows;
   image.component = 3;
@@ -641,7 +655,7 @@ size_t GltfModel::loadTexture(
   if (start != string::npos && end != string::npos) {
     image.name = uri.substr(start, end-start);
   }
-  image.uri = to_string(images.size()) + ".png"; // Matches saveImages
+  image.uri = newImageURI(this->images);
   this->images.push_back(image);
 
   // Add texture
-- 
2.43.0


From dc2ed7b61bcc014e1d5530bbe489d61450f6775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 45/76] fix: gltf2glb must accept images that lie in a buffer
 view

---
 sumo-api/sumo/threedee/glb_converter.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 0527aab..1f42879 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -192,6 +192,8 @@ def gltf2glb(input_glTF, output_glb=None):
     # Iterate over images
     if 'images' in gltf_json:
         for i, image in enumerate(gltf_json["images"]):
+            if "bufferView" in image:
+                continue  # already in one of the buffers
             uri = image["uri"]
             if not uri:
                 raise ValueError("GLTF image has empty URI.")
-- 
2.43.0


From 8bf7f057a77bce5ff219fe1ca53bbdb72d9a46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 46/76] fix: gltf2glb must keep the type an image is given in
 the document

---
 sumo-api/sumo/threedee/glb_converter.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 1f42879..9016a21 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -215,7 +215,8 @@ def gltf2glb(input_glTF, output_glb=None):
             image["bufferView"] = buffer_view_index
 
             fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
+            if "mimeType" not in image:
+                image["mimeType"] = fileType
             del image["uri"]
 
     #TODO: In our model pool, they doesn't contain shader resource.
-- 
2.43.0


From 7aeb04c50c919c5572176eb102e191342f296f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 47/76] fix: a voxel grid must keep its own copy of its minimum
 corner

---
 sumo-api/sumo/threedee/voxel_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 0d4d0da..45e3a31 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -60,7 +60,8 @@ class VoxelGrid(object):
         if (voxel_size <= 0):
             raise ValueError("voxel_size must be > 0")
         self._scale = 1 / voxel_size  # store inverse voxel size for efficiency
-        self._min_corner = min_corner if min_corner is not None else Vector3f(0, 0, 0)
+        self._min_corner = (np.array(min_corner) if min_corner is not None
+                            else Vector3f(0, 0, 0))
         self._voxels_3d = np.zeros((0, 3), dtype='int32')  # voxels in Nx3 array format
         self._size_x, self._size_y = 0, 0  # x, y size of voxel space
 
@@ -91,7 +92,7 @@ class VoxelGrid(object):
         Return:
         min_corner (Vector3f, read only) - the minimum corner of the VoxelGrid.
         """
-        return self._min_corner
+        return np.array(self._min_corner)
 
     @property
     def voxel_size(self):
-- 
2.43.0


From 8b7ea919560506be8f6ed1baece42c895a48b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:18 +0000
Subject: [PATCH 48/76] fix: malformed numbers in pose, rotation and box XML
 must be refused

---
 sumo-api/sumo/base/vector.pyx     | 11 +++++++++++
 sumo-api/sumo/geometry/pose3.pyx  |  4 ++--
 sumo-api/sumo/geometry/rot3.pyx   |  4 ++--
 sumo-api/sumo/threedee/box_3d.pyx |  6 +++---
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index 582762a..2cb35e7 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -181,3 +181,14 @@ def text_of_vector(v):
                          sign='-', nanstr='nan', infstr='inf', formatter=None,
                          threshold=v.size + 1, linewidth=1000, legacy=False):
         return np.array2string(v, separator=', ')[1:-1]
+
+
+def vector_of_text(text):
+    """
+    Vector of the numbers in comma separated <text>, see text_of_vector.  It is
+    empty if <text> is missing or has anything else in it.
+    """
+    try:
+        return np.array([float(number) for number in text.split(',')])
+    except (AttributeError, ValueError):
+        return np.empty(0)
diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index cc6ec68..585e6b5 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -12,7 +12,7 @@ import json
 import numpy as np
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3, text_of_vector
+from sumo.base.vector import Vector3, text_of_vector, vector_of_text
 from sumo.geometry.quaternion import Quaternion
 from sumo.geometry.rot3 import Rot3
 
@@ -182,7 +182,7 @@ class Pose3:
         # Parse the child tags
         for elem in node:
             if (elem.tag == 'translation'):
-                translation = np.fromstring(elem.text, sep=',')
+                translation = vector_of_text(elem.text)
                 if (translation.size != 3):
                     raise RuntimeError("Error parsing translation. Extracted {} numbers but was expecting 3".format(translation.size))
             elif (elem.tag == 'rotation'):
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index ac2e57c..5c5bc96 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -13,7 +13,7 @@ import numpy as np
 cimport numpy as np
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import text_of_vector
+from sumo.base.vector import text_of_vector, vector_of_text
 
 # Default camera rotation facing due north in ENU frame
 # see https://developers.google.com/streetview/spherical-metadata
@@ -173,7 +173,7 @@ class Rot3:
         R = np.zeros((3,3))
         for elem in base_elem:
             try:
-                R[:,col_lookup[elem.tag]] = np.fromstring(elem.text, sep=',')
+                R[:,col_lookup[elem.tag]] = vector_of_text(elem.text).reshape(3)
                 found[elem.tag] = True
             except:
                 raise ValueError("Expected c1, c2, or c3, but got {}".format(elem.tag))
diff --git a/sumo-api/sumo/threedee/box_3d.pyx b/sumo-api/sumo/threedee/box_3d.pyx
index 1bf0c98..e91aac4 100644
--- a/sumo-api/sumo/threedee/box_3d.pyx
+++ b/sumo-api/sumo/threedee/box_3d.pyx
@@ -9,7 +9,7 @@ import numpy as np
 import os
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3f, text_of_vector
+from sumo.base.vector import Vector3f, text_of_vector, vector_of_text
 from sumo.threedee.mesh import Mesh
 from sumo.threedee.textured_mesh import TexturedMesh
 
@@ -183,11 +183,11 @@ class Box3d(object):
         # Parse the child tags
         for elem in base_elem:
             if (elem.tag == 'corner1'):
-                corner1 = np.fromstring(elem.text, sep=',')
+                corner1 = vector_of_text(elem.text)
                 if (corner1.size != 3):
                     raise RuntimeError("Error parsing corner1. Extracted {} numbers but was expecting 3".format(corner1.size))
             elif (elem.tag == 'corner2'):
-                corner2 = np.fromstring(elem.text, sep=',')
+                corner2 = vector_of_text(elem.text)
                 if (corner2.size != 3):
                     raise RuntimeError("Error parsing corner2. Extracted {} numbers but was expecting 3".format(corner2.size))
             else:
-- 
2.43.0


From e5c1e4e68f2400d75ea9f5db1a7ce1f0932db090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 49/76] fix: malformed JSON of rotations and poses must raise
 ValueError

---
 sumo-api/sumo/geometry/pose3.pyx | 9 +++++++--
 sumo-api/sumo/geometry/rot3.pyx  | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 585e6b5..5f6e04a 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -144,6 +144,8 @@ class Pose3:
         q_vec = np.array(json_dict['QuaternionXYZW'])
         q_vec = np.roll(q_vec, 1)  # it has to be W, X, Y, Z
         t_vec = np.array(json_dict['Translation'])
+        if np.shape(t_vec) != (3,):
+            raise ValueError("Expected translation of 3 numbers")
         q = Quaternion(q_vec)
         rot = q.to_rotation_matrix()
         return Pose3(rot, t_vec)
@@ -228,8 +230,11 @@ class Pose3:
             Exceptions:
               ValueError - if json dictionary is not in expected format
         """
-        return cls(R=Rot3.from_json(json_dict['Rotation']),
-                   t=Vector3(*json_dict['Translation']))
+        try:
+            return cls(R=Rot3.from_json(json_dict['Rotation']),
+                       t=Vector3(*json_dict['Translation']))
+        except (KeyError, TypeError) as e:
+            raise ValueError("Expected rotation and translation: {}".format(e))
 
     def to_json(self):
         """ Convert Pose3 to json.  See above for format.
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index 5c5bc96..3cd2638 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -213,7 +213,13 @@ class Rot3:
             Exceptions:
               ValueError - if json dictionary is not in expected format
         """
-        return cls.FromColumns(json_dict['X'],json_dict['Y'],json_dict['Z'])
+        try:
+            columns = [np.array(json_dict[field], dtype=float) for field in 'XYZ']
+        except (KeyError, TypeError, ValueError) as e:
+            raise ValueError("Expected columns X, Y, and Z: {}".format(e))
+        if any(np.shape(column) != (3,) for column in columns):
+            raise ValueError("Expected columns of 3 numbers")
+        return cls.FromColumns(*columns)
 
     def to_json(self):
         """ Convert Rot3 to json.  See above for format.
-- 
2.43.0


From 8c168b82b68ede3314be17018eb12ee23f56b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 50/76] fix: Quaternion must check the dimensions of the array
 it is given

---
 sumo-api/sumo/geometry/quaternion.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/geometry/quaternion.pyx b/sumo-api/sumo/geometry/quaternion.pyx
index f1c0208..d3a39c2 100644
--- a/sumo-api/sumo/geometry/quaternion.pyx
+++ b/sumo-api/sumo/geometry/quaternion.pyx
@@ -31,11 +31,13 @@ cdef class Quaternion:
 
   def __cinit__(self, np.ndarray val=np.array([1., 0., 0., 0.])):
     """Constructor, <val> is [1, 0, 0, 0] (w, x, y, z) by default."""
-    if val.shape[0]==3:
-      assert val.shape[1] == 3, "Quaternion takes 4-vector or 3*3 matrix"
+    if val.ndim == 2:
+      assert val.shape[0] == 3 and val.shape[1] == 3, \
+        "Quaternion takes 4-vector or 3*3 matrix"
       self.c_ptr_ = new Quaterniond(matrix3_of_array(val))
     else:
-      assert val.shape[0] == 4, "Quaternion takes 4-vector or 3*3 matrix"
+      assert val.ndim == 1 and val.shape[0] == 4, \
+        "Quaternion takes 4-vector or 3*3 matrix"
       self.c_ptr_ = new Quaterniond(val[0], val[1], val[2], val[3])
 
   def __dealloc__(self):
-- 
2.43.0


From 5373d86857697ae91020c728db9d0e355b9707cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 51/76] fix: a surreal pose must consist of numbers

---
 sumo-api/sumo/geometry/pose3.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 5f6e04a..e4af450 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -141,9 +141,9 @@ class Pose3:
             Return:
               Pose3 instance
         """
-        q_vec = np.array(json_dict['QuaternionXYZW'])
+        q_vec = np.array(json_dict['QuaternionXYZW'], dtype=float)
         q_vec = np.roll(q_vec, 1)  # it has to be W, X, Y, Z
-        t_vec = np.array(json_dict['Translation'])
+        t_vec = np.array(json_dict['Translation'], dtype=float)
         if np.shape(t_vec) != (3,):
             raise ValueError("Expected translation of 3 numbers")
         q = Quaternion(q_vec)
-- 
2.43.0


From 94d6dfede45be8c436369380667f1c67ee436555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 52/76] fix: reading a malformed PLY file must end, not spin or
 overflow

---
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp |  4 ++-
 sumo-api/sumo/threedee/tinyply/tinyply.cpp   | 31 ++++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index a4acc8e..fb537db 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -35,7 +35,9 @@ vector<float> readPoints(const string& filename) {
 
   // Parse the ASCII header fields
   PlyFile file;
-  file.parse_header(ss);
+  if (!file.parse_header(ss)) {
+    throw runtime_error("readPoints: unexpected header field in " + filename);
+  }
   // The count returns the number of instances of the property group. The
   // vectors above will be resized into a multiple of the property group size
   // as they are "flattened"... i.e. vertices = {x, y, z, x, y, z, ...}
diff --git a/sumo-api/sumo/threedee/tinyply/tinyply.cpp b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
index 475090d..6122286 100755
--- a/sumo-api/sumo/threedee/tinyply/tinyply.cpp
+++ b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
@@ -131,7 +131,7 @@ struct PlyFile::PlyFileImpl {
   vector<PlyElement> elements;
   vector<string> comments;
   vector<string> objInfo;
-  uint8_t scratch[128];
+  uint8_t scratch[128] = {};
 
   void read(istream& is, uint32_t fixed_list_size);
   void write(ostream& os, bool isBinary);
@@ -203,7 +203,9 @@ PlyProperty::PlyProperty(istream& is) : isList(false) {
 /////////////////
 
 PlyElement::PlyElement(istream& is) {
-  is >> name >> size;
+  if (!(is >> name >> size)) {
+    throw runtime_error("element without name or size; file is malformed");
+  }
 }
 
 ///////////
@@ -233,7 +235,7 @@ void ply_cast_double(void* dest, const char* src, bool be) {
 
 template <typename T>
 T ply_read_ascii(istream& is) {
-  T data;
+  T data{};
   is >> data;
   return data;
 }
@@ -333,13 +335,16 @@ void PlyFile::PlyFileImpl::read_header_property(istream& is) {
 size_t PlyFile::PlyFileImpl::skip_property_binary(
     const PlyProperty& p,
     istream& is) {
+  if (p.propertyType == Type::INVALID) {
+    throw invalid_argument("invalid ply property");
+  }
   const int32_t stride = PropertyTable[p.propertyType].stride;
 
   if (p.isList) {
     size_t listSize = 0;
     size_t dummyCount = 0;
     read_property_binary(p.listType, &listSize, dummyCount, is);
-    for (size_t i = 0; i < listSize; ++i)
+    for (size_t i = 0; i < listSize && is; ++i)
       is.read((char*)scratch, stride);
     return listSize * stride; // in bytes
   } else {
@@ -358,7 +363,7 @@ size_t PlyFile::PlyFileImpl::skip_property_ascii(
     size_t listSize = 0;
     size_t dummyCount = 0;
     read_property_ascii(p.listType, &listSize, dummyCount, is);
-    for (size_t i = 0; i < listSize; ++i) {
+    for (size_t i = 0; i < listSize && is; ++i) {
       is >> skip;
     }
     return listSize * stride; // in bytes
@@ -685,6 +690,10 @@ shared_ptr<PlyData> PlyFile::PlyFileImpl::request_properties_from_element(
       if (propertyIndex > -1 && propertyIndex < static_cast<int64_t>(element.properties.size())) {
         // We found the property
         const PlyProperty& property = element.properties[propertyIndex];
+        if (helper.data->t != Type::INVALID &&
+            property.propertyType != helper.data->t) {
+          throw invalid_argument("properties of different types: " + key);
+        }
         helper.data->t = property.propertyType;
         helper.data->isList = property.isList;
         auto result = userData.insert(pair<uint32_t, ParsingHelper>(
@@ -772,8 +781,14 @@ void PlyFile::PlyFileImpl::parse_data(istream& is, bool firstPass) {
   }
 
   for (auto& element : elements) {
+    if (element.properties.empty()) {
+      continue;
+    }
     for (size_t count = 0; count < element.size; ++count) {
       for (auto& property : element.properties) {
+        if (!is) {
+          throw runtime_error("file ends early or is malformed");
+        }
         auto cursorIt = userData.find(hash_fnv1a(element.name + property.name));
         if (cursorIt != userData.end()) {
           auto& helper = cursorIt->second;
@@ -782,7 +797,7 @@ void PlyFile::PlyFileImpl::parse_data(istream& is, bool firstPass) {
               size_t listSize = 0;
               size_t dummyCount = 0;
               read(property.listType, &listSize, dummyCount, is);
-              for (size_t i = 0; i < listSize; ++i) {
+              for (size_t i = 0; i < listSize && is; ++i) {
                 read(
                     property.propertyType,
                     (helper.data->buffer.get() + helper.cursor->byteOffset),
@@ -806,6 +821,10 @@ void PlyFile::PlyFileImpl::parse_data(istream& is, bool firstPass) {
     }
   }
 
+  if (!is) {
+    throw runtime_error("file ends early or is malformed");
+  }
+
   // Reset istream reader to the beginning
   if (firstPass) {
     is.seekg(start, is.beg);
-- 
2.43.0


From 5c204adc64e2ad972f0e7810348f60afb8b69562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 53/76] fix: deeply nested JSON must be refused, not overflow
 the stack

---
 sumo-api/sumo/images/RgbdTiff.cpp            |  8 +++++
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 34 ++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 6ed8af1..51e5c88 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -7,6 +7,7 @@ LICENSE file in the root directory of this source tree.
 
 #include "RgbdTiff.h"
 #include "picojson.h"
+#include <algorithm>
 #include <memory>
 #include <stdexcept>
 
@@ -86,6 +87,13 @@ void readMetadata(TIFF* tiff, TiffMetadata* meta) {
 
   // TODO: review for potential buffer overrun issues
   size_t valLen = strlen(rawValue);
+  // The parser is recursive: unlimited nesting could overflow the stack.
+  // What can be valid is a flat object.
+  const char* const valBegin = rawValue;
+  const char* const valEnd = rawValue + valLen;
+  if (count(valBegin, valEnd, '[') + count(valBegin, valEnd, '{') > 512) {
+    throw runtime_error("readMetadata: corrupt JSON metadata in TIFF");
+  }
   picojson::value jsonValue;
   picojson::parse(jsonValue, rawValue, rawValue + valLen);
 
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index ca6e680..5d88b88 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -3098,6 +3098,33 @@ static bool ParseCamera(Camera* camera, std::string* err, const json& o) {
   return true;
 }
 
+// True if the brackets in the JSON text nest deeper than maxDepth. The parser
+// is recursive: unlimited depth could overflow the stack.
+static bool NestsDeeperThan(
+    const char* str, const size_t length, const size_t maxDepth) {
+  size_t depth = 0;
+  bool inString = false;
+  for (size_t i = 0; i < length; i++) {
+    const char c = str[i];
+    if (inString) {
+      if (c == '\\') {
+        i++; // skip the escaped character
+      } else if (c == '"') {
+        inString = false;
+      }
+    } else if (c == '"') {
+      inString = true;
+    } else if (c == '[' || c == '{') {
+      if (++depth > maxDepth) {
+        return true;
+      }
+    } else if ((c == ']' || c == '}') && depth > 0) {
+      depth--;
+    }
+  }
+  return false;
+}
+
 bool TinyGLTF::LoadFromString(
     Model* model,
     std::string* err,
@@ -3112,6 +3139,13 @@ bool TinyGLTF::LoadFromString(
     return false;
   }
 
+  if (NestsDeeperThan(str, length, 512)) {
+    if (err) {
+      (*err) = "JSON is nested too deeply.\n";
+    }
+    return false;
+  }
+
   json v;
 
 #if (                                                     \
-- 
2.43.0


From 719ae4f848867dc9dfa930c69d07a1896b0a1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 54/76] fix: a glTF mesh must have as many normals as vertices

---
 sumo-api/sumo/threedee/GltfModel.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 44ed453..1f46b5b 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -445,6 +445,11 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
   int normalAccessorIndex = primitive.attributes.at("NORMAL");
   auto normalAccessor = getAccessor<Mesh::Vertex>(*this, normalAccessorIndex);
   mesh->normals_ = normalAccessor.asVector();
+  if (mesh->normals_.size() != mesh->vertices_.size()) {
+    throw runtime_error(
+        "GltfModel::extractPrimitiveMesh: number of normals differs from "
+        "number of vertices.");
+  }
 
   // Get material
   int materialId = primitive.material;
@@ -475,6 +480,11 @@ void GltfModel::extractTexturedPrimitiveMesh(
   auto uvCoordAccessor =
       getAccessor<TexturedMesh::UVCoord>(*this, uvCoordAccessorIndex);
   mesh->uvCoords_ = uvCoordAccessor.asVector();
+  if (mesh->uvCoords_.size() > mesh->vertices_.size()) {
+    throw runtime_error(
+        "GltfModel::extractTexturedMesh: more texture coordinates than "
+        "vertices.");
+  }
 
   // Get material
   int materialId = primitive.material;
-- 
2.43.0


From 7c2be356093aed3c54b063c8831ae1d818da2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 55/76] fix: an object with an empty category must read back
 equal

---
 sumo-api/sumo/semantic/project_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index c2e3467..b78e350 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -354,7 +354,7 @@ class ProjectObject(object):
             elif elem.tag == "pose":
                 pose = Pose3.from_xml(elem)
             elif elem.tag == "category":
-                category = elem.text
+                category = elem.text or ""  # an empty text reads as None
             elif (elem.tag == "bounds"):
                 # Note: Boxe3d.from_xml expects tag to be 'box3d'
                 elem_temp = deepcopy(elem)
-- 
2.43.0


From f2a97ba1f841a702aa850b4baef46c7e132a1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:39 +0000
Subject: [PATCH 56/76] fix: a PNG texture whose data end early must be
 refused, not decoded forever

---
 sumo-api/sumo/threedee/tiny_gltf/stb_image.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/stb_image.h b/sumo-api/sumo/threedee/tiny_gltf/stb_image.h
index 14df1bb..376db23 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/stb_image.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/stb_image.h
@@ -3876,6 +3876,7 @@ typedef struct
 {
    stbi_uc *zbuffer, *zbuffer_end;
    int num_bits;
+   int num_padding; // bytes made up past the end of the buffer
    stbi__uint32 code_buffer;
 
    char *zout;
@@ -3888,7 +3889,10 @@ typedef struct
 
 stbi_inline static stbi_uc stbi__zget8(stbi__zbuf *z)
 {
-   if (z->zbuffer >= z->zbuffer_end) return 0;
+   if (z->zbuffer >= z->zbuffer_end) {
+      ++z->num_padding;
+      return 0;
+   }
    return *z->zbuffer++;
 }
 
@@ -3951,8 +3955,11 @@ static int stbi__zexpand(stbi__zbuf *z, char *zout, int n)  // need to make room
    if (!z->z_expandable) return stbi__err("output buffer limit","Corrupt PNG");
    cur   = (int) (z->zout     - z->zout_start);
    limit = old_limit = (int) (z->zout_end - z->zout_start);
-   while (cur + n > limit)
+   if (limit <= 0 || n > INT_MAX - cur) return stbi__err("outofmem", "Out of memory");
+   while (cur + n > limit) {
+      if (limit > INT_MAX / 2) return stbi__err("outofmem", "Out of memory");
       limit *= 2;
+   }
    q = (char *) STBI_REALLOC_SIZED(z->zout_start, old_limit, limit);
    STBI_NOTUSED(old_limit);
    if (q == NULL) return stbi__err("outofmem", "Out of memory");
@@ -3981,6 +3988,8 @@ static int stbi__parse_huffman_block(stbi__zbuf *a)
    char *zout = a->zout;
    for(;;) {
       int z = stbi__zhuffman_decode(a, &a->z_length);
+      // once padding is consumed, the stream has ended: do not decode it forever
+      if (8 * a->num_padding > a->num_bits) return stbi__err("unexpected end","Corrupt PNG");
       if (z < 256) {
          if (z < 0) return stbi__err("bad huffman code","Corrupt PNG"); // error in huffman codes
          if (zout >= a->zout_end) {
@@ -4141,6 +4150,7 @@ Init algorithm:
 static int stbi__parse_zlib(stbi__zbuf *a, int parse_header)
 {
    int final, type;
+   a->num_padding = 0;
    if (parse_header)
       if (!stbi__parse_zlib_header(a)) return 0;
    a->num_bits = 0;
-- 
2.43.0


From 50f538cc8b0920c42e452a95c0c7d4ded532d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 57/76] fix: an incomplete download must not be taken for a
 complete zip file

---
 tools/download_sumo_datasets.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index b168617..8fbed83 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -73,7 +73,12 @@ def read_config(args):
 
 
 def download_one(args, zip_filename):
-    """Downloads one zip file in a single process."""
+    """Downloads one zip file in a single process.
+
+    The zip file gets its name only when it is complete: the downloads and unzips
+    that follow go by the names of the files that are there."""
+    zip_file_path = os.path.join(args.destination_dir, zip_filename)
+    part_file_path = zip_file_path + ".part"
     try:
         logging.info("Downloading {}.".format(zip_filename))
         server_url = "{}/training/{}".format(args.server_name, zip_filename)
@@ -83,7 +88,7 @@ def download_one(args, zip_filename):
                 "Cannot read zip file {} from the server".format(zip_filename)
             )
         total_length = int(response.headers.get("content-length"))
-        with open(os.path.join(args.destination_dir, zip_filename), "wb") as f:
+        with open(part_file_path, "wb") as f:
             if total_length == 0:
                 f.write(response.content)
             else:
@@ -98,16 +103,20 @@ def download_one(args, zip_filename):
                     if chunk:
                         f.write(chunk)
                         f.flush()
+        if (os.path.getsize(part_file_path) != total_length
+                and "content-encoding" not in response.headers):
+            raise RuntimeError("Download of {} ended early".format(zip_filename))
+        os.replace(part_file_path, zip_file_path)
 
     except KeyboardInterrupt:
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_file_path):
+            os.remove(part_file_path)
         raise
 
     except Exception as e:
         logging.error(e)
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_file_path):
+            os.remove(part_file_path)
 
 
 def unzip_one(args, file):
-- 
2.43.0


From 0e0adbe4f69c8e5f8232392c1d515d31a4c7af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 58/76] fix: the download must work in folders whose names have
 wildcard characters

---
 tools/download_sumo_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index 8fbed83..b112b7e 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -248,11 +248,11 @@ def get_zip_file_count(args):
     all_zip_files = args.training_input + args.training_ground_truth
     existing_zip_files = [
         os.path.basename(x)
-        for x in glob.glob(os.path.join(args.destination_dir, "*.zip"))
+        for x in glob.glob(os.path.join(glob.escape(args.destination_dir), "*.zip"))
     ]
     extracted_zip_files = [
         os.path.basename(x.replace(".cache", ".zip"))
-        for x in glob.glob(os.path.join(args.cache_folder, "*.cache"))
+        for x in glob.glob(os.path.join(glob.escape(args.cache_folder), "*.cache"))
     ]
     remaining_zip_files_to_be_downloaded = remove_existing_files(
         all_zip_files, existing_zip_files + extracted_zip_files
-- 
2.43.0


From 6b01e020aafd5db14fbca582ac2f2f9a2c04f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 59/76] fix: the download must leave zip files alone that are
 not of the dataset

---
 tools/download_sumo_datasets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index b112b7e..c464c21 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -249,6 +249,7 @@ def get_zip_file_count(args):
     existing_zip_files = [
         os.path.basename(x)
         for x in glob.glob(os.path.join(glob.escape(args.destination_dir), "*.zip"))
+        if os.path.basename(x) in all_zip_files
     ]
     extracted_zip_files = [
         os.path.basename(x.replace(".cache", ".zip"))
-- 
2.43.0


From 5b9a1813895815df003c961976c1f010b7f59915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 60/76] fix: Ctrl-C must not block the download for good

---
 tools/download_sumo_datasets.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index c464c21..5517b69 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -28,6 +28,7 @@ import glob
 import logging
 import os
 import shutil
+import signal
 import zipfile
 from functools import partial
 from multiprocessing import Pool
@@ -142,6 +143,16 @@ def unzip_one(args, file):
         logging.error(e)
 
 
+def create_pool():
+    """Creates a pool of processes that leave Ctrl-C to this process, which ends them.
+    Interrupted while it holds a lock of the pool, one of them could block the others."""
+    handler = signal.signal(signal.SIGINT, signal.SIG_IGN)
+    try:
+        return Pool(MAX_CORES, signal.signal, (signal.SIGINT, signal.SIG_IGN))
+    finally:
+        signal.signal(signal.SIGINT, handler)
+
+
 def download_zips_in_parallel(args):
     """Uses a pool of processes to download zip files from the server in parallel."""
     try:
@@ -155,7 +166,7 @@ def download_zips_in_parallel(args):
         while retries < MAX_RETRIES:
             retries += 1
             # create a pool of 3 processes
-            pool = Pool(MAX_CORES)
+            pool = create_pool()
             logging.info(
                 "Attempt #{}: downloading {} zip files in parallel".format(
                     retries, len(remaining_zips)
@@ -204,7 +215,7 @@ def unzip_files_in_parallel(args):
         while retries < MAX_RETRIES:
             retries += 1
             # create a pool of 3 processes
-            pool = Pool(MAX_CORES)
+            pool = create_pool()
             logging.info(
                 "Attempt #{}: extracting {} zip files in parallel".format(
                     retries, len(existing_zip)
-- 
2.43.0


From ff9686696b454e98fded1544b7210a98288b2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:27 +0000
Subject: [PATCH 61/76] fix: a damaged zip file must be downloaded again, not
 kept for good

---
 tools/download_sumo_datasets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index 5517b69..4e0412f 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -30,6 +30,7 @@ import os
 import shutil
 import signal
 import zipfile
+import zlib
 from functools import partial
 from multiprocessing import Pool
 
@@ -107,6 +108,8 @@ def download_one(args, zip_filename):
         if (os.path.getsize(part_file_path) != total_length
                 and "content-encoding" not in response.headers):
             raise RuntimeError("Download of {} ended early".format(zip_filename))
+        if not zipfile.is_zipfile(part_file_path):
+            raise RuntimeError("Download of {} is not a zip file".format(zip_filename))
         os.replace(part_file_path, zip_file_path)
 
     except KeyboardInterrupt:
@@ -139,6 +142,11 @@ def unzip_one(args, file):
     except KeyboardInterrupt:
         raise
 
+    except (zipfile.BadZipFile, zlib.error, EOFError) as e:
+        # removed, so that it is downloaded again
+        logging.error("{} is damaged: {}".format(file, e))
+        os.remove(zip_file_path)
+
     except Exception as e:
         logging.error(e)
 
-- 
2.43.0


From 308dfbaab83ee39da3edf3ea6f01e4002d13e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 62/76] fix: showing a point cloud in its colors must not raise

---
 sumo-api/sumo/threedee/point_cloud.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 8d3d245..aad0b0a 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -183,8 +183,8 @@ cdef class PointCloud:
       fig = plt.figure(figsize=figsize)
       P = self.points()
 
-      if colored and self.colors is not None:
-          options['facecolors'] = np.transpose(self.colors).astype(np.float)/255.0
+      if colored and self.colored():
+          options['facecolors'] = np.transpose(self.colors()).astype(np.float)/255.0
           options['edgecolors'] = 'none'
 
       if 'marker' not in options:
-- 
2.43.0


From 2a1e9f19e2141fa152b26f093e23b4f5929e7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:36 +0000
Subject: [PATCH 63/76] fix: an RGB-D TIFF given both depth and inverse depth
 must not leak a page

---
 sumo-api/sumo/images/rgbd_tiff.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/images/rgbd_tiff.pyx b/sumo-api/sumo/images/rgbd_tiff.pyx
index 4b32c53..c805d14 100644
--- a/sumo-api/sumo/images/rgbd_tiff.pyx
+++ b/sumo-api/sumo/images/rgbd_tiff.pyx
@@ -70,6 +70,13 @@ cdef void _delete_images(TiffPageMap& page_map):
     postincrement(it)
 
 
+cdef void _put_image(TiffPageMap& page_map, TiffPageType page_type, Mat* image):
+  # A depth image and an inverse depth image go to the same page
+  cdef Mat* former = page_map[page_type]
+  page_map[page_type] = image
+  del former
+
+
 def load(unicode path):
   """Read from a single multi-page tiff with color and inverse depth.  Note that
      while images are always serialized as inverse depth, it is always converted
@@ -151,12 +158,12 @@ def save(page_map_np, unicode path, near=id.DEFAULT_NEAR):
     for page_type, img_np in page_map_np.items():
       if page_type == MultiImagePageType.Depth:
         inv_depth = id.inverse_depth_map_of_depth_image(img_np, near)
-        page_map[TiffPageType.InverseDepth] = <Mat*>mat1w_from_array(inv_depth)
+        _put_image(page_map, TiffPageType.InverseDepth, <Mat*>mat1w_from_array(inv_depth))
       elif page_type == MultiImagePageType.InverseDepth:
         # Here we use MultiImagePageType.Depth because the underlying cpp code
         # is already expecting inverse depth for this key, while the input to
         # this function does not
-        page_map[TiffPageType.InverseDepth] = <Mat*>mat1w_from_array(img_np)
+        _put_image(page_map, TiffPageType.InverseDepth, <Mat*>mat1w_from_array(img_np))
       elif page_type == MultiImagePageType.RGB:
         page_map[kMultiImageToTiffPageType[page_type]] = \
           <Mat*>mat3b_from_array(img_np)
-- 
2.43.0


From e462d16c79563e8e79a860fecaf0521554b59d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:41 +0000
Subject: [PATCH 64/76] fix: glTF bounds of a mesh far from the origin must be
 its own

---
 sumo-api/sumo/threedee/GltfModel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 1f46b5b..adb9508 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -101,7 +101,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC3;
   for (size_t c = 0; c < 3; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max();
+    float maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
@@ -119,7 +120,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC2;
   for (size_t c = 0; c < 2; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max();
+    float maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
-- 
2.43.0


From 99e24b1431dad01afde25f45c22fc63f7f02cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:52 +0000
Subject: [PATCH 65/76] fix: a truncated texture file must be reported when
 saving glTF

---
 sumo-api/sumo/threedee/GltfModel.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index adb9508..17fd72c 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -6,6 +6,7 @@ LICENSE file in the root directory of this source tree.
 */
 
 #include <algorithm>
+#include <fstream>
 #include <iostream>
 #include <limits>
 #include <memory>
@@ -561,16 +562,27 @@ void GltfModel::saveImages(const string& folder) const {
     if (image.uri.empty()) {
       throw invalid_argument("GltfModel::saveImages: found empty image URI");
     }
+    // Encode in memory: cv::imwrite does not report what fails on closing.
+    vector<unsigned char> encoded;
     try {
-      if (!cv::imwrite(folder + "/" + image.uri, bgr)) {
+      const size_t dot = image.uri.rfind('.');
+      if (dot == string::npos ||
+          !cv::imencode(image.uri.substr(dot), bgr, encoded)) {
         throw runtime_error(
-            "GltfModel::saveImages: could not write " + image.uri);
+            "GltfModel::saveImages: could not encode " + image.uri);
       }
     } catch (cv::Exception& e) {
       throw runtime_error(
           "GltfModel::saveImages: OpenCV could not write " + image.uri +
           ", reason: " + e.what());
     }
+    ofstream file(folder + "/" + image.uri, ios::binary);
+    file.write(reinterpret_cast<const char*>(encoded.data()), encoded.size());
+    file.close();
+    if (!file) {
+      throw runtime_error(
+          "GltfModel::saveImages: could not write " + image.uri);
+    }
   }
 }
 
-- 
2.43.0


From 4c9a48cdf66a33de3ee5e1ac37703c0fc77e4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:06 +0000
Subject: [PATCH 66/76] fix: a mesh without vertices must not add the origin to
 a bounding box

---
 sumo-api/sumo/threedee/compute_bbox.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/compute_bbox.pyx b/sumo-api/sumo/threedee/compute_bbox.pyx
index fc837db..26deead 100644
--- a/sumo-api/sumo/threedee/compute_bbox.pyx
+++ b/sumo-api/sumo/threedee/compute_bbox.pyx
@@ -49,14 +49,15 @@ class ComputeBbox(object):
 
     def from_meshes(self, meshes):
         """ Compute the bounding box of the union of the bounding boxes
-            of all meshes in the given mesh list
+            of all meshes in the given mesh list (meshes without vertices
+            have no bounding box and are left out)
 
             Inputs:
             meshes (list of Mesh)
 
             Return: Box3d object
         """
-        boxes = [self.from_point_cloud(mesh.vertices()) for mesh in meshes]
+        boxes = [self.from_mesh(mesh) for mesh in meshes if mesh.num_vertices() > 0]
         return Box3d.merge(boxes)
 
     def from_gltf_object(self, gltf_model):
-- 
2.43.0


From 047c0d0c39583f80660746055fb58f726a560c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:06 +0000
Subject: [PATCH 67/76] fix: the sum of point clouds must be a new cloud

---
 sumo-api/sumo/threedee/point_cloud.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index aad0b0a..407f9ff 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -110,9 +110,9 @@ cdef class PointCloud:
   def __add__(self, other):
       """ Return a new instance that merges the two point clouds."""
       if isinstance(other, int):
-          return self # this only happens when we call sum
+          return PointCloud.merge(self, PointCloud()) # this only happens when we call sum
       elif isinstance(self, int):
-          return other
+          return PointCloud.merge(PointCloud(), other)
       else:
           return PointCloud.merge(self, other)
 
-- 
2.43.0


From 4d15baee353647fc417be0668b3c4f94c8de98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:01 +0000
Subject: [PATCH 68/76] fix: a model whose images lie in sub-folders must be
 saved elsewhere

---
 sumo-api/sumo/threedee/gltf_model.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 2de4f31..bfc1658 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -242,6 +242,11 @@ cdef class GltfModel:
         TinyGLTF().write_gltf_scene_to_file(self, gltf_path)
         if not os.path.isfile(gltf_path):
             raise IOError("GLTF conversion failed.")
+        for i in range(self.num_images()):
+            # loaded images can lie in sub-folders
+            sub_folder = os.path.dirname(self.image_uri(i))
+            if not os.path.isabs(sub_folder) and ".." not in sub_folder.split("/"):
+                os.makedirs(os.path.join(folder, sub_folder), exist_ok=True)
         self.c_ptr.saveImages(folder.encode('UTF-8'))
         return gltf_path
 
-- 
2.43.0


From 1a1f31572090aa5b21d92de93791755196600243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:01 +0000
Subject: [PATCH 69/76] fix: evaluate-one must accept scene paths that end in a
 dot

---
 tools/evaluate-one.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/evaluate-one.py b/tools/evaluate-one.py
index d694478..6c20fe0 100644
--- a/tools/evaluate-one.py
+++ b/tools/evaluate-one.py
@@ -26,8 +26,8 @@ def main():
     parser.add_argument("sub_scene", help="path to submitted scene")
     args = parser.parse_args()
 
-    (gt_dir, gt_scene_name) = os.path.split(os.path.normpath(args.gt_scene))
-    (sub_dir, sub_scene_name) = os.path.split(os.path.normpath(args.sub_scene))
+    (gt_dir, gt_scene_name) = os.path.split(os.path.abspath(args.gt_scene))
+    (sub_dir, sub_scene_name) = os.path.split(os.path.abspath(args.sub_scene))
     
     gt_scene = ProjectScene.load(gt_dir, gt_scene_name)
     sub_scene = ProjectScene.load(sub_dir, sub_scene_name)
-- 
2.43.0


From ebefa08413fc3506f0c13a8bd95b9e6ad4d8bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:01 +0000
Subject: [PATCH 70/76] fix: images embedded in a glTF file need names, those
 beside a GLB file have one

---
 sumo-api/sumo/threedee/GltfModel.cpp | 17 +++++++++++------
 sumo-api/sumo/threedee/GltfModel.h   |  4 ++--
 sumo-api/sumo/threedee/gltf.pyx      |  4 +++-
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 17fd72c..c5bea3f 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -538,14 +538,19 @@ vector<Mesh*> GltfModel::getPolymorphicPrimitiveMeshes() const {
 }
 
 void GltfModel::setURIs(const string& extension) {
+  const auto used = [this](const string& uri) {
+    return any_of(
+        this->images.begin(), this->images.end(),
+        [&uri](const tinygltf::Image& image) { return image.uri == uri; });
+  };
   for (size_t i = 0; i < this->images.size(); i++) {
-    auto& image = this->images[i];
-    if (!image.uri.empty()) {
-      throw invalid_argument(
-          "GltfModel::setURIs: expected empty URI, but got ''" + image.uri +
-          "'.");
+    if (this->images[i].uri.empty()) { // else it came from a file of that name
+      string uri = to_string(i) + extension;
+      for (size_t j = this->images.size(); used(uri); j++) {
+        uri = to_string(j) + extension;
+      }
+      this->images[i].uri = uri;
     }
-    image.uri = to_string(i) + extension;
   }
 }
 
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 9e9b70d..68b6967 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -132,8 +132,8 @@ class GltfModel : public tinygltf::Model {
   std::vector<Mesh*> getPolymorphicPrimitiveMeshes() const;
 
   /**
-   * Set URI to sequentially numbered relative image names with given extension.
-   * Assumes uris are empty, will throw invalid_argument exception if not.
+   * Set URI of embedded images (whose URI is empty) to sequentially numbered
+   * relative image names with given extension.
    */
   void setURIs(const std::string& extension = ".png");
 
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index ae265f5..a262fbf 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -50,6 +50,8 @@ cdef class TinyGLTF:
       cdef bool ret = self.c_ptr.LoadASCIIFromFile(c_model, &err, py_byte_string)
       if not ret:
           raise IOError("Failed to parse gltf file {}.  Error = {}".format(path, err))
+      # set the URI for embedded images
+      c_model.setURIs(b".png")
       return model
 
   def load_binary_from_file(self, unicode path):
@@ -72,7 +74,7 @@ cdef class TinyGLTF:
       cdef bool ret = self.c_ptr.LoadBinaryFromFile(c_model, &err, py_byte_string)
       if not ret:
           raise IOError("Failed to parse glb file {}.  Error = {}".format(path, err))
-      # set the URI for the images
+      # set the URI for embedded images
       c_model.setURIs(b".png")
       return model
 
-- 
2.43.0


From ae5dc713d0da610d9040b248c972af73f88ca743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 71/76] fix: Negative category ids in an image are refused
 instead of wrapping to another category

---
 sumo-api/sumo/base/colored_category.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/colored_category.pyx b/sumo-api/sumo/base/colored_category.pyx
index e60efd8..ab6bc7a 100644
--- a/sumo-api/sumo/base/colored_category.pyx
+++ b/sumo-api/sumo/base/colored_category.pyx
@@ -143,6 +143,8 @@ class ColoredCategory(object):
 
         Exceptions:
         IndexError -- if an index value in input image exists where the value is
-        greater than the maximum index in the LUT.
+        negative or greater than the maximum index in the LUT.
         """
+        if np.any(indexed_im < 0):
+            raise IndexError("Category ids must not be negative.")
         return self.LUT[indexed_im]
-- 
2.43.0


From af3170969fcfbabd0d3b63ec069448646bd13027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 72/76] fix: A texture array that does not have three channels
 is refused, not misread

---
 sumo-api/sumo/opencv/wrap.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f2e79e5..651013a 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -63,6 +63,8 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) e
 
 cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
   assert <Vec3b*>array.data != <Vec3b*>0
+  if array.shape[2] != 3:
+      raise ValueError('mat3b_from_array needs 3 channels')
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
   if mat == <Mat3b*>0:
-- 
2.43.0


From 3f5213c229b1457a9baf3e8b340eb27584a99b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 73/76] fix: Converting a project keeps the keys of its
 elements, so that none replaces another

---
 sumo-api/sumo/semantic/project_converter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_converter.py b/sumo-api/sumo/semantic/project_converter.py
index 6ea4082..9fd1928 100644
--- a/sumo-api/sumo/semantic/project_converter.py
+++ b/sumo-api/sumo/semantic/project_converter.py
@@ -58,9 +58,8 @@ class ProjectConverter(object):
 
         new_settings = deepcopy(project.settings)
         new_elements = ProjectObjectDict()
-        for element in project.elements.values():
-            new_element = self.convert_element(element, target_type)
-            new_elements[new_element.id] = new_element
+        for key, element in project.elements.items():
+            new_elements[key] = self.convert_element(element, target_type)
         new_project = ProjectScene(project_type=target_type, elements=new_elements,
             settings=new_settings)
 
-- 
2.43.0


From 24e9558084ecb44ebc8af22967c501ef42badb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 74/76] fix: Detection scores of single precision and truth
 values of other types are read back as they were saved

---
 sumo-api/sumo/semantic/project_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index b78e350..780b2e0 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -311,10 +311,10 @@ class ProjectObject(object):
         base_elem.append(self.symmetry.to_xml())
 
         score_elem = ET.SubElement(base_elem, "detectionScore")
-        score_elem.text = str(self.score)
+        score_elem.text = str(float(self.score))
 
         evaluated_elem = ET.SubElement(base_elem, "evaluated")
-        evaluated_elem.text = str(self.evaluated)
+        evaluated_elem.text = str(bool(self.evaluated))
 
         return base_elem
 
-- 
2.43.0


From affbc756511d5a9a460569fe1cdde598ab1f3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 75/76] fix: Projects with empty or missing version and
 categories can be saved and read back

---
 sumo-api/sumo/semantic/project_scene.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index a2c20d7..6140656 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -94,15 +94,19 @@ class ProjectScene(object):
         )
 
         # version section
-        version = ET.SubElement(scene, "version")
-        version.text = self.settings["version"]
+        if "version" in self.settings:
+            version = ET.SubElement(scene, "version")
+            version.text = self.settings["version"]
 
         # categories section
-        categories = ET.SubElement(scene, "categories")
-        categories_id = ET.SubElement(categories, "id")
-        categories_id.text = self.settings["categories_id"]
-        categories_url = ET.SubElement(categories, "url")
-        categories_url.text = self.settings["categories_url"]
+        if "categories_id" in self.settings or "categories_url" in self.settings:
+            categories = ET.SubElement(scene, "categories")
+            if "categories_id" in self.settings:
+                categories_id = ET.SubElement(categories, "id")
+                categories_id.text = self.settings["categories_id"]
+            if "categories_url" in self.settings:
+                categories_url = ET.SubElement(categories, "url")
+                categories_url.text = self.settings["categories_url"]
 
         # project type
         project_type = ET.SubElement(scene, "project_type")
@@ -150,13 +154,13 @@ class ProjectScene(object):
             if element.tag == "categories":
                 for child_element in element:
                     if child_element.tag == "id":
-                        settings["categories_id"] = child_element.text
+                        settings["categories_id"] = child_element.text or ""
                     elif child_element.tag == "url":
-                        settings["categories_url"] = child_element.text
+                        settings["categories_url"] = child_element.text or ""
             elif element.tag == "project_type":
                 project_type = element.text
             elif element.tag == "version":
-                settings["version"] = element.text
+                settings["version"] = element.text or ""
 
             # Skip elements tag for now.
             # Any other tags are silently ignored
-- 
2.43.0


From 69472bb10679a8f890462acca450e00b314f19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 76/76] fix: Saving refuses elements with the same id and ids
 that lead out of the project's folder

---
 sumo-api/sumo/semantic/project_scene.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 6140656..7b8470e 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -81,7 +81,16 @@ class ProjectScene(object):
 
         Exceptions:
         RuntimeError - if <path>/<project_name> already exists.
+        ValueError - if two elements have the same id, or an id cannot be the
+            name of a file in the project.
         """
+        ids = [element.id for element in self.elements.values()]
+        if len(set(ids)) != len(ids):
+            raise ValueError("Elements with the same id cannot be told apart on disk.")
+        if self.project_type != "bounding_box":
+            for id in ids:
+                if os.path.basename(id) != id:
+                    raise ValueError("Element id '{}' is not a file name.".format(id))
 
         # create <project_name> dir
         # Will raise OSError if <path>/<project_name> already exists
-- 
2.43.0

