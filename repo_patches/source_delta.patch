From 4afa72a8bcbb31ed017673419157eae9d87ce973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 01/35] fix: Rot3.from_xml accepts only columns of three
 numbers

A one-element column was broadcast to all three rows.
---
 sumo-api/sumo/geometry/rot3.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index e2176ff..4d2c55a 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -172,7 +172,9 @@ class Rot3:
         R = np.zeros((3,3))
         for elem in base_elem:
             try:
-                R[:,col_lookup[elem.tag]] = np.fromstring(elem.text, sep=',')
+                column = np.fromstring(elem.text, sep=',')
+                assert column.shape == (3,)  # a shorter one would broadcast
+                R[:,col_lookup[elem.tag]] = column
                 found[elem.tag] = True
             except:
                 raise ValueError("Expected c1, c2, or c3, but got {}".format(elem.tag))
-- 
2.43.0


From b4220f7c73a26bf420505658630da134c8a21fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 02/35] fix: ObjectSymmetry.__ne__ recursed forever

---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 814dff4..2724033 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -93,7 +93,7 @@ class ObjectSymmetry(object):
         )
 
     def __ne__(self, other):
-        return self != other
+        return not self == other
 
     @property
     def x_symmetry(self):
-- 
2.43.0


From 7d178269cdb8d0c626b7f7513f87fe7704113485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 03/35] fix: ObjectSymmetry.from_xml raises on bad symmetry

The exception was created but not raised, so None was returned.
---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 2724033..3d80702 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -190,7 +190,7 @@ class ObjectSymmetry(object):
             return objectSymmetry
 
         except ValueError:
-            RuntimeError("Could not parse symmetry element.")
+            raise RuntimeError("Could not parse symmetry element.")
 
     def to_xml(self):
         """
-- 
2.43.0


From 034e50df894a2b3c66aa18422fa363f172a8af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 04/35] fix: ProjectObject.load without id or bounds elements

A missing <id> raised UnboundLocalError instead of the documented
ValueError, and a missing <bounds> raised it instead of using the default.
---
 sumo-api/sumo/semantic/project_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 45f7743..16ab2bf 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -339,6 +339,8 @@ class ProjectObject(object):
             raise ValueError('Expected tag to be "element"')
 
         # defaults
+        id = None
+        bounds = None
         proxy = ProjectObject(1)
         category = proxy.category
         pose = proxy.pose
-- 
2.43.0


From 9e7277ae972720d5de0e5ac34371af9a7aa238a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 05/35] fix: ProjectScene.transform_pose keeps settings and the
 element container

The result held a plain dict, which cannot be saved or compared, and the
default settings instead of those of the scene.
---
 sumo-api/sumo/semantic/project_scene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index c78616e..433a2b4 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -57,8 +57,11 @@ class ProjectScene(object):
         Output: new_project_scene - new ProjectScene instance with
             transformed pose.
         """
-        new_elements = {k: PO.transform_pose(nTo) for (k, PO) in self.elements.items()}
-        return ProjectScene(project_type=self.project_type, elements=new_elements)
+        new_elements = ProjectObjectDict()
+        for (k, PO) in self.elements.items():
+            new_elements[k] = PO.transform_pose(nTo)
+        return ProjectScene(project_type=self.project_type, elements=new_elements,
+            settings=self.settings)
 
     def save(self, path, project_name):
         """
-- 
2.43.0


From 828b7ab89d4cdec6cfe499932cd272fa01b5933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 06/35] fix: ProjectScene.load raises ValueError when elements
 are missing

It raised UnboundLocalError.
---
 sumo-api/sumo/semantic/project_scene.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 433a2b4..933dfb7 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -162,10 +162,14 @@ class ProjectScene(object):
             raise ValueError("xml is missing project_type tag")
 
         # extract elements
+        elements = None
         for element in root:
             if element.tag == "elements":
                 elements = ProjectObjectDict.load(
                     project_type=project_type, base_elem=element, path=project_dir)
             # header and any other tags are silently ignored
 
+        if elements is None:
+            raise ValueError("xml is missing elements tag")
+
         return cls(project_type, elements, settings)
-- 
2.43.0


From 14de2834be7564b7bb1f57fe4ad4bb4feb113202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 07/35] fix: VoxelGrid.add_points never shrinks the voxel space

When a batch grew the grid along one of x and y only, the other size was
replaced by the (smaller) one of the batch, and existing voxels moved.
The sizes were also 32 bit integers whose product could overflow.
---
 sumo-api/sumo/threedee/voxel_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 9d580c3..444eca6 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -125,9 +125,10 @@ class VoxelGrid(object):
             raise ValueError("Point coordinates must be >= min_corner")
 
         # Check if voxel space dimensions have increased
+        # (python ints, so that size_x * size_y cannot overflow)
         (new_size_x, new_size_y, _) = np.amax(new_voxels_3d, 0) + 1
-        if (new_size_x > self._size_x) or (new_size_y > self._size_y):
-            self._size_x, self._size_y = new_size_x, new_size_y
+        self._size_x = max(int(self._size_x), int(new_size_x))
+        self._size_y = max(int(self._size_y), int(new_size_y))
 
         # convert the voxel_index to 1D and merge
         old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
-- 
2.43.0


From 69eb2188a94d6805d29d5712153902cffab43e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 08/35] fix: VoxelGrid.add_points accepts an empty batch

The minimum of an empty array raised, e.g. when a surface was too small to
be sampled.
---
 sumo-api/sumo/threedee/voxel_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 444eca6..0bf7d51 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -119,6 +119,8 @@ class VoxelGrid(object):
         # convert points to voxel coordinates
         # voxel_index = floor((point - min_corner) * scale)
         n_points = points.shape[0]
+        if n_points == 0:
+            return
         min_corner = np.tile(self._min_corner, (n_points, 1))
         new_voxels_3d = np.floor((points - min_corner) * self._scale).astype('int32')  # Nx3
         if (np.amin(new_voxels_3d) < 0):
-- 
2.43.0


From c52986832435ef8fa538f63f96ba1e3051ccbd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 09/35] fix: VoxelGrid.save and load raise IOError

The exception was created but not raised.
---
 sumo-api/sumo/threedee/voxel_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 0bf7d51..c05f09b 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -178,7 +178,7 @@ class VoxelGrid(object):
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
             f = h5py.File(filename, "w")
         except Exception as e:
-            IOError("voxel file write failed. Err: " + str(e))
+            raise IOError("voxel file write failed. Err: " + str(e))
         f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
         f.attrs["scale"] = self._scale
         f.attrs["min_corner"] = self._min_corner
@@ -199,7 +199,7 @@ class VoxelGrid(object):
         try:
             f = h5py.File(filename, "r")
         except Exception as e:
-            IOError("voxel file read failed. Err: " + str(e))
+            raise IOError("voxel file read failed. Err: " + str(e))
         self._voxels_3d = np.array(f["voxels_3d"], np.int32)
         self._scale = f.attrs["scale"]
         self._min_corner = np.array(f.attrs["min_corner"])
-- 
2.43.0


From 9d855506e07bf7c328eab1423ba25e494c89cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 10/35] fix: PointCloud never combines colored with non-colored
 clouds

merge, + and append of a non-colored cloud with a colored one, and register
of a mixture, gave a cloud with fewer colors than points.
---
 sumo-api/sumo/threedee/point_cloud.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 10c79f7..d154d88 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -100,6 +100,8 @@ cdef class PointCloud:
           cloud_ptr = w_point_cloud._c_ptr
           clouds.push_back(cloud_ptr)
           point_clouds.append(w_point_cloud)
+      if len(set(cloud.colored() for cloud in point_clouds if cloud.num_points() > 0)) > 1:
+          raise ValueError("Can't register colored with non-colored point clouds.")
       wrapper = <PointCloud>PointCloud.__new__(PointCloud)
       wrapper._c_ptr = new CPointCloud(clouds)
       return wrapper # python objects will now be destroyed
@@ -119,6 +121,9 @@ cdef class PointCloud:
 
   def append(self, PointCloud other):
       """ Append the points (and colors) of the other instance. Imperative."""
+      if self.num_points() > 0 and other.num_points() > 0 \
+              and self.colored() != other.colored():
+          raise ValueError("Can't append colored to non-colored point cloud or vice versa.")
       self._c_ptr.append(other._c_ptr[0])
 
   def point(self, size_t i):
-- 
2.43.0


From a3efa54ec439562504920a82f127ad732cdf1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 11/35] fix: ColoredCategory.category_id_to_rgb raises KeyError
 for the first unknown id

The id equal to the number of categories raised IndexError.
---
 sumo-api/sumo/base/colored_category.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/colored_category.pyx b/sumo-api/sumo/base/colored_category.pyx
index 20b7d15..e60efd8 100644
--- a/sumo-api/sumo/base/colored_category.pyx
+++ b/sumo-api/sumo/base/colored_category.pyx
@@ -112,7 +112,7 @@ class ColoredCategory(object):
         Exceptions:
         KeyError - if category_id does not exist in the dataset config.
         """
-        if category_id > len(self._data) or category_id < 0:
+        if category_id >= len(self._data) or category_id < 0:
             raise KeyError("Category id {} does not exist.".format(category_id))
         return self._data[category_id]["color"]
 
-- 
2.43.0


From 485afcc886fb277b8dd70ce7d415cf5c97b4cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 12/35] fix: ComputeBbox.from_meshes ignores empty meshes

An empty mesh added the origin to the bounding box.
---
 sumo-api/sumo/threedee/compute_bbox.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/compute_bbox.pyx b/sumo-api/sumo/threedee/compute_bbox.pyx
index fc837db..8dba614 100644
--- a/sumo-api/sumo/threedee/compute_bbox.pyx
+++ b/sumo-api/sumo/threedee/compute_bbox.pyx
@@ -56,7 +56,7 @@ class ComputeBbox(object):
 
             Return: Box3d object
         """
-        boxes = [self.from_point_cloud(mesh.vertices()) for mesh in meshes]
+        boxes = [self.from_mesh(mesh) for mesh in meshes if mesh.num_vertices() > 0]
         return Box3d.merge(boxes)
 
     def from_gltf_object(self, gltf_model):
-- 
2.43.0


From afe9aa258289537d42b22c58af2579aa00365d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 13/35] fix: quat_to_euler at vertical pitch

At vertical pitch rounding could leave the domain of asin, and the two
other angles were read from noise, so that the angles described another
rotation.
---
 sumo-api/sumo/metrics/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 4bc0528..01c252d 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -143,9 +143,18 @@ def quat_to_euler(q):
     atan2( 2*(qy.*qz+qw.*qx), qw.^2 - qx.^2 - qy.^2 + qz.^2 )];
 
     """
+    sin_y = -2 * (q[1] * q[3] - q[0] * q[2])
+    if abs(sin_y) > 1 - 1e-14:
+        # vertical pitch: only the sum or difference of the other two
+        # angles is defined, so set x to 0
+        return np.array([math.atan2(-2 * (q[1] * q[2] - q[0] * q[3]),
+                                    q[0] * q[0] - q[1] * q[1] + q[2] * q[2] - q[3] * q[3]),
+                         math.copysign(math.pi / 2, sin_y),
+                         0.0])
+
     return np.array([math.atan2(2 * (q[1] * q[2] + q[0] * q[3]),
                                 q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3]),
-                     math.asin(-2 * (q[1] * q[3] - q[0] * q[2])),
+                     math.asin(sin_y),
                      math.atan2(2 * (q[2] * q[3] + q[0] * q[1]),
                                 q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3])])
 
-- 
2.43.0


From 83b71b9d5e99f3a99fb3de222204f1e9c7d8faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 14/35] fix: report PLY read and write errors as Python
 exceptions instead of aborting

---
 sumo-api/sumo/threedee/point_cloud_ply.pxd | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply.pxd b/sumo-api/sumo/threedee/point_cloud_ply.pxd
index a7d2759..1284ba0 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply.pxd
+++ b/sumo-api/sumo/threedee/point_cloud_ply.pxd
@@ -10,15 +10,15 @@ from libcpp.vector cimport vector
 cdef extern from "sumo/threedee/point_cloud_ply_c.h" namespace "sumo":
 
   # This is a wrapper for the function readPoints
-  cdef vector[float] readPoints(const char* filename)
+  cdef vector[float] readPoints(const char* filename) except +
 
   # This is a wrapper for the function writePoints
   cdef void writePoints(
     vector[float]& vertex_points,
-    const char* filename)
+    const char* filename) except +
 
   # This is a wrapper for the function writePointsAndColor
   cdef void writePointsAndColors(
     vector[float]& vertex_points,
     vector[unsigned char]& vertex_colors,
-    const char* filename)
+    const char* filename) except +
-- 
2.43.0


From 61e97c4c7991d585647dedb6632812abc67d5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 15/35] fix: read double precision PLY coordinates without
 overflowing the point buffer

---
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index 2456c73..e406423 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -45,7 +45,15 @@ vector<float> readPoints(const string& filename) {
 
   const size_t numVerticesBytes = vertexData->buffer.size_bytes();
   vector<float> vertices(3 * vertexData->count);
-  memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
+  if (vertexData->t == Type::FLOAT32) {
+    memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
+  } else if (vertexData->t == Type::FLOAT64) {
+    const double* values =
+        reinterpret_cast<const double*>(vertexData->buffer.get());
+    copy(values, values + vertices.size(), vertices.begin());
+  } else {
+    throw runtime_error("readPoints: unsupported coordinate type in " + filename);
+  }
 
   return vertices;
 }
-- 
2.43.0


From 6a8aa63336d21c79f06cd6ed3f0e9bbfbd581471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 16/35] fix: array to Mat conversions pass on the exception for
 arrays of the wrong type instead of crashing

---
 sumo-api/sumo/opencv/wrap.pxd | 10 +++++-----
 sumo-api/sumo/opencv/wrap.pyx | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/opencv/wrap.pxd b/sumo-api/sumo/opencv/wrap.pxd
index d87aa94..4a3c9c4 100644
--- a/sumo-api/sumo/opencv/wrap.pxd
+++ b/sumo-api/sumo/opencv/wrap.pxd
@@ -70,11 +70,11 @@ cdef extern from "<opencv2/core/core.hpp>" namespace "cv":
 
 # Convert from numpy to opencv
 # NOTE: these do not copy memory, but provide "views" onto the numpy data.
-cdef Mat* mat_from_array(np.ndarray array) except +
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except +
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except +
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except +
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except +
+cdef Mat* mat_from_array(np.ndarray array) except NULL
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL
 
 # Convert from opencv to numpy
 # NOTE: these *do* copy data, i.e., they assume OpenCV owns the memory buffer.
diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f3a735b..f2e79e5 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -12,7 +12,7 @@ from libc.string cimport memcpy
 from libc.stdint cimport uint16_t
 
 
-cdef Mat* mat_from_array(np.ndarray array):
+cdef Mat* mat_from_array(np.ndarray array) except NULL:
   """ Convert numpy array to generic OpenCV Mat.
       Keyword arguments:
           array -- numpy array, 3-channel uint8 or 1-channel uint8 or float32
@@ -40,7 +40,7 @@ cdef Mat* mat_from_array(np.ndarray array):
       raise ValueError('mat_from_array failed')
   return mat
 
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1b* mat = new Mat1b(
       array.shape[0], array.shape[1], <unsigned char*>array.data, array.strides[0])
@@ -48,12 +48,12 @@ cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
       raise ValueError('mat1b_from_array failed')
   return mat
 
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array):
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned short*>array.data != <unsigned short*>0
   return new Mat1w(
       array.shape[0], array.shape[1], <unsigned short*>array.data, array.strides[0])
 
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1f* mat = new Mat1f(
       array.shape[0], array.shape[1], <np.float32_t*>array.data, array.strides[0])
@@ -61,7 +61,7 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
       raise ValueError('mat1f_from_array failed')
   return mat
 
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array):
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
   assert <Vec3b*>array.data != <Vec3b*>0
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
-- 
2.43.0


From 6944ff5eff889a37f8747f5f19eac2f8bf768f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 17/35] fix: Mesh.cube sets its triangle indices

---
 sumo-api/sumo/threedee/mesh.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 609d92e..17875c1 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -122,6 +122,9 @@ cdef class Mesh:
       # Create 2D mesh
       cdef size_t j = 0
       indices = np.empty((36,), dtype=np.uint32)
+      for i in range(6): # BACK, LEFT, FRONT, RIGHT, UP, DOWN
+          indices[i*6:i*6+6] = [j+0, j+1, j+2,  j+1, j+3, j+2]
+          j+=4
 
       # Create 3D mesh in OpenGL frame, Y is up, positive Z is back
       # Face order is BACK, LEFT, FRONT, RIGHT, UP, DOWN
-- 
2.43.0


From fe5b3f3cea313bdfe24faaa33e03c706e9e24170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 18/35] fix: GltfModel.save_as_glb writes to relative paths

---
 sumo-api/sumo/threedee/gltf_model.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 4f5e2fe..5a9e13d 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -256,6 +256,7 @@ cdef class GltfModel:
               RunTimeError - if saveImages fails when writing gltf files
         """
         base_name = os.path.basename(path)
+        path = os.path.abspath(path)
         temp = tempfile.mkdtemp()
         temp_folder = temp.decode('UTF-8') if hasattr(temp, 'decode') else temp
         root, extension = os.path.splitext(base_name)
-- 
2.43.0


From b4d32981cb5a2cf618aef6403c41a1ea04bf4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 19/35] fix: accessor bounds of coordinates beyond the integer
 range

---
 sumo-api/sumo/threedee/GltfModel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index dd4fdc6..40f0222 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -83,7 +83,7 @@ static void completeAccessor(
     tinygltf::Accessor* accessor) {
   accessor->componentType = ComponentType<T>();
   accessor->type = TINYGLTF_TYPE_SCALAR;
-  T minValue = (T)INT_MAX, maxValue = 0;
+  T minValue = numeric_limits<T>::max(), maxValue = numeric_limits<T>::lowest();
   for (size_t i = 0; i < accessor->count; i++) {
     minValue = min(minValue, values[i]);
     maxValue = max(maxValue, values[i]);
@@ -100,7 +100,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC3;
   for (size_t c = 0; c < 3; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max(),
+          maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
@@ -118,7 +119,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC2;
   for (size_t c = 0; c < 2; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max(),
+          maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
-- 
2.43.0


From 6e5c28b461a06be7825b44730d6086b8355f3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 20/35] fix: a material without properties is written as an
 object, so models of plain meshes load again

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 9094ef6..c865ea4 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4570,7 +4570,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->materials.size()) {
     json materials;
     for (unsigned int i = 0; i < model->materials.size(); ++i) {
-      json material;
+      json material = json::object();
       SerializeGltfMaterial(model->materials[i], material);
       materials.push_back(material);
     }
-- 
2.43.0


From 23a1d9aab97a51033c318e6c4593a2d870e820a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 21/35] fix: a TexturedMesh without base color texture does not
 refer to one

---
 sumo-api/sumo/threedee/TexturedMesh.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index 95fe44a..0fc2304 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -28,10 +28,12 @@ TexturedMesh::TexturedMesh(
   // Not all vertices necessarily have uv_coords
   assert(vertices.size() >= uvCoords.size());
 
-  // Add color texture
-  tinygltf::Parameter color;
-  color.json_double_value["index"] = 0;
-  material_.values["baseColorTexture"] = color;
+  // Add color texture if it exists in mesh
+  if (!baseColorTexture.empty()) {
+    tinygltf::Parameter color;
+    color.json_double_value["index"] = 0;
+    material_.values["baseColorTexture"] = color;
+  }
 
   // Add metallic/roughness if it exists in mesh
   if (!metallicRoughnessTexture.empty()) {
-- 
2.43.0


From e5269ad1724596f51469f2a0e795e773a5cab200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 22/35] fix: addPrimitiveMesh does not keep references to
 textures it does not add

---
 sumo-api/sumo/threedee/GltfModel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 40f0222..4b35ae7 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -300,8 +300,11 @@ void GltfModel::addPrimitiveMesh(const Mesh& mesh) {
   tmesh.primitives.push_back(primitive);
   this->meshes.push_back(tmesh);
 
-  // Material for textured mesh.
+  // Material. A plain primitive has no texture coordinates, and the textures
+  // of a TexturedMesh are only added by addTexturedPrimitiveMesh.
   tinygltf::Material material = mesh.material_;
+  material.values.erase("baseColorTexture");
+  material.values.erase("metallicRoughnessTexture");
   this->materials.push_back(material);
 }
 
-- 
2.43.0


From d1cd752131d7b1886ed4ab475567bfae995072d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 23/35] fix: GLB converter placed buffer views without
 byteOffset at the start of the body

---
 sumo-api/sumo/threedee/glb_converter.pyx | 459 +++++++++++------------
 1 file changed, 228 insertions(+), 231 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 48cf4a5..401fbb5 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,231 +1,228 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json["buffers"]):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
-        try:
-            bufview["byteOffset"] \
-                = bufview["byteOffset"] + buffer_map[bufview["buffer"]]
-        except KeyError:
-            bufview["byteOffset"] = 0
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Placeholder to store buffer length
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+        """
+        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+            buf = bytearray(f.read())
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    buffer_map = {}
+    buffer_offset = 0
+    buffer_length = 0
+    buffer_index = 0
+
+    for i, _val in enumerate(gltf_json["buffers"]):
+        try:
+            length = gltf_json["buffers"][i]["byteLength"]
+        except KeyError:
+            length = None
+
+        offset, length \
+            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
+
+        del gltf_json["buffers"][i]["uri"]
+        gltf_json["buffers"][i]["byteLength"] = length
+
+        buffer_index = i
+        buffer_map[buffer_index] = buffer_offset
+        buffer_offset += length
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    for bufview in gltf_json["bufferViews"]:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    if 'images' in gltf_json:
+        for i, image in enumerate(gltf_json["images"]):
+            uri = image["uri"]
+            if not uri:
+                raise ValueError("GLTF image has empty URI.")
+            buffer_map[buffer_index] = buffer_offset
+            offset, length = body_encoder.add_to_body(uri, None)
+
+            buffer_view = {
+                "buffer": 0,
+                "byteOffset": offset,
+                "byteLength": length
+            }
+
+            # Update buffer_offset after add data into binary
+            buffer_index += 1
+            buffer_offset = offset
+            buffer_length = length
+            buffer_view_index = len(gltf_json["bufferViews"])
+            gltf_json["bufferViews"].append(buffer_view)
+            image["bufferView"] = buffer_view_index
+
+            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
+            image["mimeType"] = fileType
+            del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From 91e5cb0c8822932ef78b6efe85956d82cd5432a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 24/35] fix: GLB converter failed on documents without buffers
 or bufferViews

---
 sumo-api/sumo/threedee/glb_converter.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 401fbb5..40f6999 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -165,7 +165,7 @@ def gltf2glb(input_glTF, output_glb=None):
     buffer_length = 0
     buffer_index = 0
 
-    for i, _val in enumerate(gltf_json["buffers"]):
+    for i, _val in enumerate(gltf_json.get("buffers", [])):
         try:
             length = gltf_json["buffers"][i]["byteLength"]
         except KeyError:
@@ -183,7 +183,7 @@ def gltf2glb(input_glTF, output_glb=None):
 
     # Iterate over the bufferViews to
     # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
+    for bufview in gltf_json.get("bufferViews", []):
         bufview["byteOffset"] \
             = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
 
@@ -208,8 +208,9 @@ def gltf2glb(input_glTF, output_glb=None):
             buffer_index += 1
             buffer_offset = offset
             buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
+            buffer_views = gltf_json.setdefault("bufferViews", [])
+            buffer_view_index = len(buffer_views)
+            buffer_views.append(buffer_view)
             image["bufferView"] = buffer_view_index
 
             fileType, fileEncoding = mimetypes.guess_type(image["uri"])
@@ -219,7 +220,11 @@ def gltf2glb(input_glTF, output_glb=None):
     #TODO: In our model pool, they doesn't contain shader resource.
     #if 'shaders' in gltf_json:
 
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    # The first buffer of a GLB is its binary chunk
+    if body_encoder.body_length and not gltf_json.get("buffers"):
+        gltf_json["buffers"] = [{}]
+    if gltf_json.get("buffers"):
+        gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
     lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
     gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
 
-- 
2.43.0


From f05c3df0e96804f537d53bf000f6ab22d9f03975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 25/35] fix: VoxelEvaluator swapped submission and ground truth

---
 sumo-api/sumo/metrics/voxel_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/voxel_evaluator.py b/sumo-api/sumo/metrics/voxel_evaluator.py
index f8dca81..ac5cedb 100644
--- a/sumo-api/sumo/metrics/voxel_evaluator.py
+++ b/sumo-api/sumo/metrics/voxel_evaluator.py
@@ -48,7 +48,7 @@ class VoxelEvaluator(Evaluator):
             posed_corners = e.pose.transform_all_from(bbox_corners)
             e.posed_bbox = ComputeBbox().from_point_cloud(posed_corners)
 
-        super(VoxelEvaluator, self).__init__(ground_truth, submission, settings)
+        super(VoxelEvaluator, self).__init__(submission, ground_truth, settings)
 
     def evaluate_all(self):
         """
-- 
2.43.0


From b2a38fcde91fa300356b036ca2a76277994fa414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 26/35] fix: evaluators failed when all or some settings were
 not given

---
 sumo-api/sumo/metrics/evaluator.py      | 4 +++-
 sumo-api/sumo/metrics/mesh_evaluator.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index c562832..8672c12 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -57,7 +57,9 @@ class Evaluator():
         settings (dict) - configuration for the evaluator.  See top of
           file for recognized attributes and values.
         """
-        self._settings = self.default_settings() if settings is None else settings
+        self._settings = self.default_settings()
+        if settings is not None:
+            self._settings.update(settings)
         self._settings["thresholds"] = np.sort(self._settings["thresholds"])
         self._submission = submission
         self._ground_truth = ground_truth
diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 93bdca7..bf5cb04 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -137,13 +137,17 @@ class MeshEvaluator(Evaluator):
         Evaluator.py for recognized keys and values.
         """
 
+        density = self.default_settings()["density"]
+        if settings is not None:
+            density = settings.get("density", density)
+
         # sample submission and GT and store in points field
         # also compute bounding box of each posed object
         for e in submission.elements.values():
-            e.posed_points = sample_element(e, settings["density"])
+            e.posed_points = sample_element(e, density)
             e.posed_bbox = ComputeBbox().from_point_cloud(e.posed_points[:, 0:3].T)
         for e in ground_truth.elements.values():
-            e.posed_points = sample_element(e, settings["density"])
+            e.posed_points = sample_element(e, density)
             e.posed_bbox = ComputeBbox().from_point_cloud(e.posed_points[:, 0:3].T)
 
         super(MeshEvaluator, self).__init__(submission, ground_truth, settings)
-- 
2.43.0


From f58305c50e6df8f23a22935e7b61c3d7efe2df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 27/35] fix: rotation error was not minimized over cylindrical
 symmetries

---
 sumo-api/sumo/metrics/evaluator.py | 34 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index 8672c12..adca721 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -382,6 +382,7 @@ class Evaluator():
 
         # collect a list of equvalent rots for the target object in rots_to_check
         rots_to_check = [gt_element.pose.R]
+        cylindrical_axes = []
         for (axis, sym) in enumerate(sym_list):
             if sym == SymmetryType.spherical:
                 # spherical means 0 error
@@ -398,11 +399,15 @@ class Evaluator():
                     for rot in rots_to_check])
                 rots_to_check.extend(new_rots)
             elif sym == SymmetryType.cylindrical:
-                rots_to_check = [
-                    self.cylindrical_symmetric_rot(det_element.pose.R, rot, axis)
-                    for rot in rots_to_check]
+                cylindrical_axes.append(axis)
             # else sym = SymmetryType.none -> do nothing
 
+        # the best cylindrical rotation depends on the discrete ones, so it comes last
+        for axis in cylindrical_axes:
+            rots_to_check = [
+                self.cylindrical_symmetric_rot(det_element.pose.R, rot, axis)
+                for rot in rots_to_check]
+
         # get minimum error
         # Eq. 8, source: https://chrischoy.github.io/research/measuring-rotation/
         errors = [np.sqrt(0.5) *
@@ -424,8 +429,8 @@ class Evaluator():
 
     def cylindrical_symmetric_rot(self, det_rot, gt_rot, axis):
         """
-        Compute rot that zeroes out the rotation error between
-        <det_rot> and <gt_rot> along axis <axis>.
+        Compute the rotation of <gt_rot> about its own axis <axis> that
+        minimizes the rotation error between <det_rot> and <gt_rot>.
 
         Inputs
         det_rot (Rot3) - rotation for detection
@@ -433,18 +438,17 @@ class Evaluator():
         axis (int) - cylindrical rotation axis (0=x, 1=y, 2=z)
 
         Return:
-        Rot3 - new rotation matrix with gt set to det rotation on target axis
+        Rot3 - gt_rot rotated about target axis
 
         Algorithm:
-        1. convert to zyx Euler angles
-        2. set gt to detection value for target axis
-        3. convert back to matrix rep
-        """
-        det_euler = utils.matrix_to_euler(det_rot.R)
-        gt_euler = utils.matrix_to_euler(gt_rot.R)
-        # note e[0] is z
-        gt_euler[2 - axis] = det_euler[2 - axis]
-        return Rot3(utils.euler_to_matrix(gt_euler))
+        The error is smallest where the trace of det_rot^T * gt_rot * R(angle)
+        is largest, which is a * cos(angle) + b * sin(angle) + constant.
+        """
+        relative = np.matmul(det_rot.R.T, gt_rot.R)
+        j, k = (axis + 1) % 3, (axis + 2) % 3
+        angle = math.atan2(relative[j, k] - relative[k, j],
+                           relative[j, j] + relative[k, k])
+        return self.symmetric_rot(gt_rot, axis, angle)
 
     def rms_points_error(self):
         """
-- 
2.43.0


From 9837e8f5cc95c6624410631bcd30cfd898395d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 28/35] fix: mesh sampling used the first texture coordinate as
 row and the second as column

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 4 ++--
 sumo-api/sumo/threedee/model_sampler.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index bf5cb04..36414ba 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -61,8 +61,8 @@ def sample_element(element, density=625):
         else:
             uv_coords = posed_mesh.uv_coords()  # 2 x N_verts
             temp2 = uv_coords[:, posed_mesh.indices()]  # 2 x N_indices
-            r = np.mod(np.floor(temp2[0, :] * h).astype(int), h)  # 1 x n_vertices
-            c = np.mod(np.floor(temp2[1, :] * w).astype(int), w)  # "
+            r = np.mod(np.floor(temp2[1, :] * h).astype(int), h)  # 1 x n_vertices
+            c = np.mod(np.floor(temp2[0, :] * w).astype(int), w)  # "
             colors = posed_mesh.base_color()[r, c, :]
 
         faces[start:start + counts[i], 3:6] = colors
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index 6db6298..fd51bd3 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -54,8 +54,8 @@ class ModelSampler(object):
             else:
                 uv_coords = mesh.uv_coords()  # 2 x N_verts
                 temp2 = uv_coords[:, mesh.indices()]  # 2 x N_indices
-                r = np.mod(np.floor(temp2[0,:] * h).astype(int), h)  # 1 x n_vertices
-                c = np.mod(np.floor(temp2[1,:] * w).astype(int), w)  # "
+                r = np.mod(np.floor(temp2[1, :] * h).astype(int), h)  # 1 x n_vertices
+                c = np.mod(np.floor(temp2[0, :] * w).astype(int), w)  # "
                 colors = mesh.base_color()[r, c, :]
 
             faces[start:start+counts[i], 3:6] = colors
-- 
2.43.0


From f407c27396a6bb4f747b69da8499eb1c238877e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 29/35] fix: sampling a model without triangles failed

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 2 +-
 sumo-api/sumo/threedee/model_sampler.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 36414ba..eacf4ba 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -35,7 +35,7 @@ def sample_element(element, density=625):
     # count the # of faces in all the component meshes
     # and allocate space for faces
     counts = [m.num_indices() for m in element.meshes.primitive_meshes()]
-    n_faces3 = np.sum(counts)  # 3 x num faces
+    n_faces3 = sum(counts)  # 3 x num faces
     faces = np.zeros((n_faces3, 6))
 
     # build faces list from element component meshes
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index fd51bd3..bfde381 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -31,7 +31,7 @@ class ModelSampler(object):
         # count the # of faces in all the component meshes
         # and allocate space for faces
         counts = [m.num_indices() for m in model.primitive_meshes()]
-        n_faces3 = np.sum(counts)  # 3 x num faces
+        n_faces3 = sum(counts)  # 3 x num faces
         faces = np.zeros((n_faces3, 6))
 
         # build faces list from element component meshes
@@ -102,7 +102,7 @@ def _sample_mesh(faces, density=625):
     N = np.sum(Nsamples_per_face)  # N = total # of samples
 
     if N == 0:
-        return np.empty((0, 3))
+        return np.empty((0, faces.shape[1]))
 
     face_ids = np.zeros((N,), dtype=int)  # reserve space for result
 
-- 
2.43.0


From 192ec8bcab0592753b088cf1db52dac5ab54c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 30/35] fix: surface and color distances included elements that
 are not evaluated

---
 sumo-api/sumo/metrics/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 01c252d..faa4135 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -502,6 +502,8 @@ def points_rmsssd(evaluator, submission, ground_truth, voxels=False):
     rmsssd1 = []  # list of rmsssd per correspondence
     for t in settings["thresholds"]:
         for det_id in data_assoc[t]:
+            if not data_assoc[t][det_id].evaluated:
+                continue
             if det_id not in rmsssd_cache:
                 rmsssd_cache[det_id] = {}
             gt_id = data_assoc[t][det_id].gt_id
@@ -561,6 +563,8 @@ def color_rmsssd(evaluator, submission, ground_truth, voxels=False):
     rmssscd1 = []  # list of rmssscd per correspondence
     for t in settings["thresholds"]:
         for det_id in data_assoc[t]:
+            if not data_assoc[t][det_id].evaluated:
+                continue
             if det_id not in rmssscd_cache:
                 rmssscd_cache[det_id] = {}
             gt_id = data_assoc[t][det_id].gt_id
-- 
2.43.0


From c99cf3537a4ebd44291c106e2f3b92eee5c90be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:45 +0000
Subject: [PATCH 31/35] fix: bounding boxes were evaluated as wrong solids
 (faces did not match the order of the corners)

---
 sumo-api/sumo/metrics/bb_evaluator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/metrics/bb_evaluator.py b/sumo-api/sumo/metrics/bb_evaluator.py
index b98ec9c..9bbd0ff 100644
--- a/sumo-api/sumo/metrics/bb_evaluator.py
+++ b/sumo-api/sumo/metrics/bb_evaluator.py
@@ -121,8 +121,8 @@ def _bbox2pymesh(element):
     vertices = (element.pose * element.bounds.corners())
 
     i1, i2, i3, i4, i5, i6, i7, i8 = range(8)
-    faces = [[i1, i2, i3], [i1, i3, i4], [i4, i3, i8], [i4, i8, i5],
-             [i5, i8, i7], [i5, i7, i6], [i6, i7, i2], [i6, i2, i1],
-             [i1, i4, i5], [i1, i5, i6], [i2, i7, i8], [i2, i8, i3]]
+    faces = [[i1, i2, i3], [i1, i3, i4], [i4, i3, i7], [i4, i7, i8],
+             [i8, i7, i6], [i8, i6, i5], [i5, i6, i2], [i5, i2, i1],
+             [i1, i4, i8], [i1, i8, i5], [i2, i6, i7], [i2, i7, i3]]
 
     return pymesh.form_mesh(vertices.T, np.array(faces))
-- 
2.43.0


From fb4b9e731a1632ecf71afb963569d1299d4bf41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 32/35] fix: partially downloaded files were treated as
 complete after a crash or short transfer

---
 tools/download_sumo_datasets.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index b168617..adef1a1 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -74,6 +74,8 @@ def read_config(args):
 
 def download_one(args, zip_filename):
     """Downloads one zip file in a single process."""
+    # the file gets its name only when it is complete
+    part_path = os.path.join(args.destination_dir, zip_filename + ".part")
     try:
         logging.info("Downloading {}.".format(zip_filename))
         server_url = "{}/training/{}".format(args.server_name, zip_filename)
@@ -83,7 +85,7 @@ def download_one(args, zip_filename):
                 "Cannot read zip file {} from the server".format(zip_filename)
             )
         total_length = int(response.headers.get("content-length"))
-        with open(os.path.join(args.destination_dir, zip_filename), "wb") as f:
+        with open(part_path, "wb") as f:
             if total_length == 0:
                 f.write(response.content)
             else:
@@ -98,16 +100,19 @@ def download_one(args, zip_filename):
                     if chunk:
                         f.write(chunk)
                         f.flush()
+        if os.path.getsize(part_path) != total_length:
+            raise RuntimeError("Download of {} is incomplete".format(zip_filename))
+        os.replace(part_path, os.path.join(args.destination_dir, zip_filename))
 
     except KeyboardInterrupt:
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_path):
+            os.remove(part_path)
         raise
 
     except Exception as e:
         logging.error(e)
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_path):
+            os.remove(part_path)
 
 
 def unzip_one(args, file):
-- 
2.43.0


From 98f3662e05086276b8f8fcf085bca4c1536e103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 33/35] fix: a file interrupted after extraction was downloaded
 again

---
 tools/download_sumo_datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index adef1a1..de5d7be 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -122,7 +122,6 @@ def unzip_one(args, file):
         logging.info("Extracting {}.".format(zip_file_path))
         with zipfile.ZipFile(zip_file_path, "r") as zip:
             zip.extractall(path=args.destination_dir)
-        os.remove(zip_file_path)
         with open(
             os.path.join(
                 args.destination_dir, ".cache", file.replace(".zip", ".cache")
@@ -130,6 +129,7 @@ def unzip_one(args, file):
             "w",
         ) as f:
             f.write("complete")
+        os.remove(zip_file_path)
 
     except KeyboardInterrupt:
         raise
-- 
2.43.0


From 09479fdf181e6434a9065e3dc206114b74f0ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:25 +0000
Subject: [PATCH 34/35] fix: archives with .zip or .cache inside their name
 were downloaded again on every run

---
 tools/download_sumo_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index de5d7be..8c6d357 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -124,7 +124,7 @@ def unzip_one(args, file):
             zip.extractall(path=args.destination_dir)
         with open(
             os.path.join(
-                args.destination_dir, ".cache", file.replace(".zip", ".cache")
+                args.destination_dir, ".cache", os.path.splitext(file)[0] + ".cache"
             ),
             "w",
         ) as f:
@@ -247,7 +247,7 @@ def get_zip_file_count(args):
         for x in glob.glob(os.path.join(args.destination_dir, "*.zip"))
     ]
     extracted_zip_files = [
-        os.path.basename(x.replace(".cache", ".zip"))
+        os.path.splitext(os.path.basename(x))[0] + ".zip"
         for x in glob.glob(os.path.join(args.cache_folder, "*.cache"))
     ]
     remaining_zip_files_to_be_downloaded = remove_existing_files(
-- 
2.43.0


From 8de82f56a47b1a04bfd4d2b350df555426885504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:37 +0000
Subject: [PATCH 35/35] fix: restore the line endings of glb_converter.pyx that
 earlier fixes changed

---
 sumo-api/sumo/threedee/glb_converter.pyx | 466 +++++++++++------------
 1 file changed, 233 insertions(+), 233 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 40f6999..e0a3f5a 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,233 +1,233 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json.get("buffers", [])):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json.get("bufferViews", []):
-        bufview["byteOffset"] \
-            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_views = gltf_json.setdefault("bufferViews", [])
-            buffer_view_index = len(buffer_views)
-            buffer_views.append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    # The first buffer of a GLB is its binary chunk
-    if body_encoder.body_length and not gltf_json.get("buffers"):
-        gltf_json["buffers"] = [{}]
-    if gltf_json.get("buffers"):
-        gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Placeholder to store buffer length
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+        """
+        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+            buf = bytearray(f.read())
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    buffer_map = {}
+    buffer_offset = 0
+    buffer_length = 0
+    buffer_index = 0
+
+    for i, _val in enumerate(gltf_json.get("buffers", [])):
+        try:
+            length = gltf_json["buffers"][i]["byteLength"]
+        except KeyError:
+            length = None
+
+        offset, length \
+            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
+
+        del gltf_json["buffers"][i]["uri"]
+        gltf_json["buffers"][i]["byteLength"] = length
+
+        buffer_index = i
+        buffer_map[buffer_index] = buffer_offset
+        buffer_offset += length
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    for bufview in gltf_json.get("bufferViews", []):
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    if 'images' in gltf_json:
+        for i, image in enumerate(gltf_json["images"]):
+            uri = image["uri"]
+            if not uri:
+                raise ValueError("GLTF image has empty URI.")
+            buffer_map[buffer_index] = buffer_offset
+            offset, length = body_encoder.add_to_body(uri, None)
+
+            buffer_view = {
+                "buffer": 0,
+                "byteOffset": offset,
+                "byteLength": length
+            }
+
+            # Update buffer_offset after add data into binary
+            buffer_index += 1
+            buffer_offset = offset
+            buffer_length = length
+            buffer_views = gltf_json.setdefault("bufferViews", [])
+            buffer_view_index = len(buffer_views)
+            buffer_views.append(buffer_view)
+            image["bufferView"] = buffer_view_index
+
+            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
+            image["mimeType"] = fileType
+            del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    # The first buffer of a GLB is its binary chunk
+    if body_encoder.body_length and not gltf_json.get("buffers"):
+        gltf_json["buffers"] = [{}]
+    if gltf_json.get("buffers"):
+        gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0

