From d0374ab08ac64fbc8a3de4f8362f0d496cc483b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 01/65] fix: ObjectSymmetry inequality recursed without end

---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 814dff4..2724033 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -93,7 +93,7 @@ class ObjectSymmetry(object):
         )
 
     def __ne__(self, other):
-        return self != other
+        return not self == other
 
     @property
     def x_symmetry(self):
-- 
2.43.0


From 63338d37701a4e7f3bc5ed74cfe3bba57bed3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 02/65] fix: ObjectSymmetry.from_xml returned None for invalid
 symmetries

---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 2724033..3d80702 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -190,7 +190,7 @@ class ObjectSymmetry(object):
             return objectSymmetry
 
         except ValueError:
-            RuntimeError("Could not parse symmetry element.")
+            raise RuntimeError("Could not parse symmetry element.")
 
     def to_xml(self):
         """
-- 
2.43.0


From 7e56e474b3f7d4ba27c2bfca291eb120892c812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 03/65] fix: VoxelGrid corrupted old voxels when one dimension
 grew and the other was smaller

---
 sumo-api/sumo/threedee/voxel_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 9d580c3..6adc262 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -125,9 +125,10 @@ class VoxelGrid(object):
             raise ValueError("Point coordinates must be >= min_corner")
 
         # Check if voxel space dimensions have increased
+        # (each dimension on its own; python ints do not overflow when multiplied)
         (new_size_x, new_size_y, _) = np.amax(new_voxels_3d, 0) + 1
-        if (new_size_x > self._size_x) or (new_size_y > self._size_y):
-            self._size_x, self._size_y = new_size_x, new_size_y
+        self._size_x = max(int(self._size_x), int(new_size_x))
+        self._size_y = max(int(self._size_y), int(new_size_y))
 
         # convert the voxel_index to 1D and merge
         old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
-- 
2.43.0


From 1603f07e899323a20bd9d86647bb7a26ad57476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 04/65] fix: VoxelGrid.add_points failed on an empty set of
 points

---
 sumo-api/sumo/threedee/voxel_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 6adc262..8b60f4a 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -119,6 +119,8 @@ class VoxelGrid(object):
         # convert points to voxel coordinates
         # voxel_index = floor((point - min_corner) * scale)
         n_points = points.shape[0]
+        if n_points == 0:
+            return
         min_corner = np.tile(self._min_corner, (n_points, 1))
         new_voxels_3d = np.floor((points - min_corner) * self._scale).astype('int32')  # Nx3
         if (np.amin(new_voxels_3d) < 0):
-- 
2.43.0


From 1d802367c0a44a12a2d5e5bd699fd34fdaab8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 05/65] fix: VoxelGrid.save/load did not raise the documented
 IOError

---
 sumo-api/sumo/threedee/voxel_grid.py | 35 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 8b60f4a..bfee62e 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -176,15 +176,14 @@ class VoxelGrid(object):
         IOError - if file cannot be written.
         """
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
-            f = h5py.File(filename, "w")
+            with h5py.File(filename, "w") as f:
+                f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
+                f.attrs["scale"] = self._scale
+                f.attrs["min_corner"] = self._min_corner
+                f.attrs["size_x"] = self._size_x
+                f.attrs["size_y"] = self._size_y
         except Exception as e:
-            IOError("voxel file write failed. Err: " + str(e))
-        f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
-        f.attrs["scale"] = self._scale
-        f.attrs["min_corner"] = self._min_corner
-        f.attrs["size_x"] = self._size_x
-        f.attrs["size_y"] = self._size_y
-        f.close()
+            raise IOError("voxel file write failed. Err: " + str(e))
 
     def load(self, filename):
         """
@@ -197,15 +196,19 @@ class VoxelGrid(object):
         IOError - if file cannot be read.
         """
         try:
-            f = h5py.File(filename, "r")
+            with h5py.File(filename, "r") as f:
+                voxels_3d = np.array(f["voxels_3d"], np.int32)
+                scale = f.attrs["scale"]
+                min_corner = np.array(f.attrs["min_corner"])
+                size_x = f.attrs["size_x"]
+                size_y = f.attrs["size_y"]
         except Exception as e:
-            IOError("voxel file read failed. Err: " + str(e))
-        self._voxels_3d = np.array(f["voxels_3d"], np.int32)
-        self._scale = f.attrs["scale"]
-        self._min_corner = np.array(f.attrs["min_corner"])
-        self._size_x = f.attrs["size_x"]
-        self._size_y = f.attrs["size_y"]
-        f.close()
+            raise IOError("voxel file read failed. Err: " + str(e))
+        self._voxels_3d = voxels_3d
+        self._scale = scale
+        self._min_corner = min_corner
+        self._size_x = size_x
+        self._size_y = size_y
 
 
 #------------- End of public interface ------------------------
-- 
2.43.0


From fd270bcc1e1c18d52450518b303fda58822e9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 06/65] fix: scenes shared one default settings dictionary

---
 sumo-api/sumo/semantic/project_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index c78616e..2b3f4f2 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -45,7 +45,7 @@ class ProjectScene(object):
             raise ValueError("Project type ({}) must be one of 'bounding_box', \
 'voxels', or 'mesh'".format(project_type))
         self.project_type = project_type
-        self.settings = settings if settings is not None else DEFAULT_SETTINGS
+        self.settings = settings if settings is not None else dict(DEFAULT_SETTINGS)
         self.elements = elements if elements is not None else ProjectObjectDict()
 
     def transform_pose(self, nTo):
-- 
2.43.0


From d1a3672b36d23ed7446b0d872db2b1e5cf8727df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 07/65] fix: ProjectScene.transform_pose lost the settings and
 gave a scene that could not be saved

---
 sumo-api/sumo/semantic/project_scene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 2b3f4f2..9f12155 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -57,8 +57,11 @@ class ProjectScene(object):
         Output: new_project_scene - new ProjectScene instance with
             transformed pose.
         """
-        new_elements = {k: PO.transform_pose(nTo) for (k, PO) in self.elements.items()}
-        return ProjectScene(project_type=self.project_type, elements=new_elements)
+        new_elements = ProjectObjectDict()
+        for (k, PO) in self.elements.items():
+            new_elements[k] = PO.transform_pose(nTo)
+        return ProjectScene(project_type=self.project_type, elements=new_elements,
+            settings=dict(self.settings))
 
     def save(self, path, project_name):
         """
-- 
2.43.0


From 7c0b3bf4faa8fec9446a3157ff08a88634bcab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 08/65] fix: ProjectScene.load failed with undocumented errors
 on unparsable xml or missing elements

---
 sumo-api/sumo/semantic/project_scene.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 9f12155..91825b6 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -135,7 +135,10 @@ class ProjectScene(object):
         project_dir = os.path.join(path, project_name)
 
         # Read xml from file
-        xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        try:
+            xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        except ET.ParseError as e:
+            raise ValueError("Could not parse project xml: " + str(e))
 
         # parse xml tree
         root = xml_tree.getroot()
@@ -162,10 +165,14 @@ class ProjectScene(object):
             raise ValueError("xml is missing project_type tag")
 
         # extract elements
+        elements = None
         for element in root:
             if element.tag == "elements":
                 elements = ProjectObjectDict.load(
                     project_type=project_type, base_elem=element, path=project_dir)
             # header and any other tags are silently ignored
 
+        if elements is None:
+            raise ValueError("xml is missing elements tag")
+
         return cls(project_type, elements, settings)
-- 
2.43.0


From 45a64bc1de20fe1d9605c9cb8dd31f21ecfcf897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 09/65] fix: ProjectObject.load failed with UnboundLocalError
 when id or bounds are missing

---
 sumo-api/sumo/semantic/project_object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 45f7743..05aab96 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -340,6 +340,8 @@ class ProjectObject(object):
 
         # defaults
         proxy = ProjectObject(1)
+        id = None
+        bounds = None
         category = proxy.category
         pose = proxy.pose
         symmetry = proxy.symmetry
@@ -367,5 +369,7 @@ class ProjectObject(object):
 
         if id is None:
             raise ValueError("XML is missing required <id> tag.")
+        if bounds is None:
+            raise ValueError("XML is missing required <bounds> tag.")
 
         return (id, pose, category, bounds, symmetry, score, evaluated)
-- 
2.43.0


From 6c1481fcff213da81ccc7d86ed564a48ec9a00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 10/65] fix: an empty category or setting was loaded as None

---
 sumo-api/sumo/semantic/project_object.py | 2 +-
 sumo-api/sumo/semantic/project_scene.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 05aab96..1897e8b 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -354,7 +354,7 @@ class ProjectObject(object):
             elif elem.tag == "pose":
                 pose = Pose3.from_xml(elem)
             elif elem.tag == "category":
-                category = elem.text
+                category = elem.text or ""
             elif (elem.tag == "bounds"):
                 # Note: Boxe3d.from_xml expects tag to be 'box3d'
                 elem_temp = deepcopy(elem)
diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 91825b6..c63d115 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -150,13 +150,13 @@ class ProjectScene(object):
             if element.tag == "categories":
                 for child_element in element:
                     if child_element.tag == "id":
-                        settings["categories_id"] = child_element.text
+                        settings["categories_id"] = child_element.text or ""
                     elif child_element.tag == "url":
-                        settings["categories_url"] = child_element.text
+                        settings["categories_url"] = child_element.text or ""
             elif element.tag == "project_type":
                 project_type = element.text
             elif element.tag == "version":
-                settings["version"] = element.text
+                settings["version"] = element.text or ""
 
             # Skip elements tag for now.
             # Any other tags are silently ignored
-- 
2.43.0


From 63b02f0a651d8436d3ebf92926b0b6903e7f415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 11/65] fix: comparing an object with meshes to one without
 failed

---
 sumo-api/sumo/semantic/project_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 1897e8b..7b0f817 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -168,6 +168,8 @@ class ProjectObject(object):
         """ Check that two instances are almost equal.
             Note: just checks object's size.
         """
+        if (self.meshes is None) != (other.meshes is None):
+            return False
         if (self.meshes is not None) and (not self.meshes.same_size(other.meshes)):
             return False
 
-- 
2.43.0


From 5f3a1800a5dff2b4ab7924eafbc12f6ec0b71280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 12/65] fix: ProjectObjectDict accepted other values through
 update, setdefault and the constructor

---
 sumo-api/sumo/semantic/project_object_dict.py | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object_dict.py b/sumo-api/sumo/semantic/project_object_dict.py
index 093217d..a40ed49 100644
--- a/sumo-api/sumo/semantic/project_object_dict.py
+++ b/sumo-api/sumo/semantic/project_object_dict.py
@@ -26,6 +26,11 @@ class ProjectObjectDict(dict):
     to and from xml.
     """
 
+    def __init__(self, *args, **kwargs):
+        """Create dictionary, verifying that all values are ProjectObjects."""
+        dict.__init__(self)
+        self.update(*args, **kwargs)
+
     def __getitem__(self, key):
         """Lookup <key> in the dictionary and return the associated value."""
         return dict.__getitem__(self, key)
@@ -36,6 +41,24 @@ class ProjectObjectDict(dict):
         assert isinstance(value, ProjectObject)
         dict.__setitem__(self, key, value)
 
+    def __ior__(self, other):
+        """Update the dictionary in place, verifying the new values."""
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Insert <default> if there is no <key>, verifying its type."""
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def update(self, *args, **kwargs):
+        """Update from dictionary or pairs, verifying all new values first."""
+        new_items = dict(*args, **kwargs)
+        for value in new_items.values():
+            assert isinstance(value, ProjectObject)
+        dict.update(self, new_items)
+
     def almost_equal(self, other):
         """Check that two dicts are almost equal."""
         if len(self) != len(other):
-- 
2.43.0


From 0b76baddfa85fed127dc00e0c367a0a7299dff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 13/65] fix: default poses and rotations shared one mutable
 array

---
 sumo-api/sumo/geometry/pose3.pyx | 13 ++++++++-----
 sumo-api/sumo/geometry/rot3.pyx  |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 11c8db9..fe1f7a9 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -22,9 +22,12 @@ from sumo.geometry.rot3 import Rot3
 class Pose3:
     # TODO: (dellaert) T21391110 cdef np.ndarray R_, t_
 
-    def __init__(self, R=np.identity(3, dtype=float),
-                       np.ndarray t=Vector3(0, 0, 0)):
-        """Create a Pose3 instance."""
+    def __init__(self, R=None, np.ndarray t=None):
+        """Create a Pose3 instance (default: identity)."""
+        if R is None:
+            R = np.identity(3, dtype=float)
+        if t is None:
+            t = Vector3(0, 0, 0)
         if isinstance(R, Rot3):
             self.R = R
         else:
@@ -108,7 +111,7 @@ class Pose3:
 
     @classmethod
     def ENU_camera(cls, float roll=0, float pitch=0, float yaw=0,
-                   np.ndarray position=Vector3(0, 0, 0)):
+                   np.ndarray position=None):
         """Create ENU_T_camera where default is upright, level, facing north.
            The transform is from camera coordinates (Z depth, Y down) to a local
            ENU frame, i.e., X=East, Y=North, Z=Up. Optionally, perturb via:
@@ -121,7 +124,7 @@ class Pose3:
 
     @classmethod
     def Maya_camera(cls, float roll=0, float pitch=0, float yaw=0,
-                   np.ndarray position=Vector3(0, 0, 0)):
+                   np.ndarray position=None):
         """Create Maya_T_camera where default is upright, level, facing -z.
            The transform is from camera coordinates (Z depth, Y down) to the
            Maya frame, i.e., right-handed coordinate frame with Y=up.
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index e2176ff..273fbe3 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -27,8 +27,10 @@ MAYA_R_CAMERA = np.transpose(
 
 
 class Rot3:
-    def __init__(self, np.ndarray R=np.identity(3, dtype=float)):
-        """Create a Rot3 instance."""
+    def __init__(self, np.ndarray R=None):
+        """Create a Rot3 instance (default: identity)."""
+        if R is None:
+            R = np.identity(3, dtype=float)
         self.R = R
 
     def matrix(self):
-- 
2.43.0


From 6a93fcbac3233582cd97cbdf3c20c5250a2f06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 14/65] fix: xml of poses, rotations and boxes was rounded to
 the print precision

---
 sumo-api/sumo/base/vector.pyx     | 9 +++++++++
 sumo-api/sumo/geometry/pose3.pyx  | 5 ++---
 sumo-api/sumo/geometry/rot3.pyx   | 4 +++-
 sumo-api/sumo/threedee/box_3d.pyx | 6 +++---
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index e5b7206..84d2a82 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -140,6 +140,15 @@ def unitize(v):
     else:
         return v
 
+def vector_to_text(v):
+    """
+    Convert numpy vector <v> to comma separated text that reads back as exactly
+    the same numbers, whatever the numpy print options are.
+    """
+    with np.printoptions(floatmode='unique', suppress=False, formatter=None,
+                         sign='-', linewidth=1000, threshold=1000, legacy=False):
+        return np.array2string(np.asarray(v), separator=', ').strip('[]')
+
 def on_left(N, p, a, b):
     """
     Returns true iff point <p> is on left side of line b-a
diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index fe1f7a9..984aad1 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -13,7 +13,7 @@ import numpy as np
 import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3
+from sumo.base.vector import Vector3, vector_to_text
 from sumo.geometry.quaternion import Quaternion
 from sumo.geometry.rot3 import Rot3
 
@@ -213,8 +213,7 @@ class Pose3:
         pose_elem = ET.Element('pose')
 
         tr_elem = ET.SubElement(pose_elem, 'translation')
-        # regex to remove []
-        tr_elem.text = re.sub('[\[\]]', '', np.array2string(self.t, separator=', '))
+        tr_elem.text = vector_to_text(self.t)
 
         rot_elem = self.R.to_xml()
         pose_elem.append(rot_elem)
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index 273fbe3..cf3d1b7 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -14,6 +14,8 @@ cimport numpy as np
 import re
 import xml.etree.cElementTree as ET
 
+from sumo.base.vector import vector_to_text
+
 # Default camera rotation facing due north in ENU frame
 # see https://developers.google.com/streetview/spherical-metadata
 ENU_R_CAMERA = np.transpose(
@@ -194,7 +196,7 @@ class Rot3:
 
         for c in range(3):
             elem = ET.SubElement(base_elem, 'c' + str(c+1))
-            elem.text =  re.sub('[\[\]]', '', np.array2string(self.R[:,c], separator=', '))
+            elem.text =  vector_to_text(self.R[:,c])
 
         return (base_elem)
 
diff --git a/sumo-api/sumo/threedee/box_3d.pyx b/sumo-api/sumo/threedee/box_3d.pyx
index 4be56ef..123e9ff 100644
--- a/sumo-api/sumo/threedee/box_3d.pyx
+++ b/sumo-api/sumo/threedee/box_3d.pyx
@@ -10,7 +10,7 @@ import os
 import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3f
+from sumo.base.vector import Vector3f, vector_to_text
 from sumo.threedee.mesh import Mesh
 from sumo.threedee.textured_mesh import TexturedMesh
 
@@ -212,10 +212,10 @@ class Box3d(object):
         base_elem = ET.Element('box3d')
 
         c1_elem = ET.SubElement(base_elem, 'corner1')
-        c1_elem.text = re.sub('[\[\]]', '', np.array2string(self._min_corner, separator=', '))
+        c1_elem.text = vector_to_text(self._min_corner)
 
         c2_elem = ET.SubElement(base_elem, 'corner2')
-        c2_elem.text = re.sub('[\[\]]', '', np.array2string(self._max_corner, separator=', '))
+        c2_elem.text = vector_to_text(self._max_corner)
 
         return (base_elem)
 
-- 
2.43.0


From 99d7b8138028dc73bbb7c552aa646443b7300029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 15/65] fix: xml with malformed numbers was accepted in part,
 or failed with an undocumented error

---
 sumo-api/sumo/base/vector.pyx     | 13 +++++++++++++
 sumo-api/sumo/geometry/pose3.pyx  |  9 +++++----
 sumo-api/sumo/geometry/rot3.pyx   |  4 ++--
 sumo-api/sumo/threedee/box_3d.pyx | 16 +++++++++-------
 4 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index 84d2a82..27713b8 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -149,6 +149,19 @@ def vector_to_text(v):
                          sign='-', linewidth=1000, threshold=1000, legacy=False):
         return np.array2string(np.asarray(v), separator=', ').strip('[]')
 
+def vector_of_text(text, size):
+    """
+    Convert comma separated text (see vector_to_text) into numpy vector.
+
+    Exceptions:
+    ValueError - if <text> is not exactly <size> comma separated numbers
+    """
+    numbers = [float(x) for x in (text or '').split(',')]
+    if len(numbers) != size:
+        raise ValueError("Extracted {} numbers but was expecting {}".format(
+            len(numbers), size))
+    return np.array(numbers, dtype=np.float64)
+
 def on_left(N, p, a, b):
     """
     Returns true iff point <p> is on left side of line b-a
diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 984aad1..0967010 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -13,7 +13,7 @@ import numpy as np
 import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3, vector_to_text
+from sumo.base.vector import Vector3, vector_of_text, vector_to_text
 from sumo.geometry.quaternion import Quaternion
 from sumo.geometry.rot3 import Rot3
 
@@ -187,9 +187,10 @@ class Pose3:
         # Parse the child tags
         for elem in node:
             if (elem.tag == 'translation'):
-                translation = np.fromstring(elem.text, sep=',')
-                if (translation.size != 3):
-                    raise RuntimeError("Error parsing translation. Extracted {} numbers but was expecting 3".format(translation.size))
+                try:
+                    translation = vector_of_text(elem.text, 3)
+                except ValueError as e:
+                    raise RuntimeError("Error parsing translation. " + str(e))
             elif (elem.tag == 'rotation'):
                 rotation = Rot3.from_xml(elem)
             else:
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index cf3d1b7..0540e25 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -14,7 +14,7 @@ cimport numpy as np
 import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import vector_to_text
+from sumo.base.vector import vector_of_text, vector_to_text
 
 # Default camera rotation facing due north in ENU frame
 # see https://developers.google.com/streetview/spherical-metadata
@@ -176,7 +176,7 @@ class Rot3:
         R = np.zeros((3,3))
         for elem in base_elem:
             try:
-                R[:,col_lookup[elem.tag]] = np.fromstring(elem.text, sep=',')
+                R[:,col_lookup[elem.tag]] = vector_of_text(elem.text, 3)
                 found[elem.tag] = True
             except:
                 raise ValueError("Expected c1, c2, or c3, but got {}".format(elem.tag))
diff --git a/sumo-api/sumo/threedee/box_3d.pyx b/sumo-api/sumo/threedee/box_3d.pyx
index 123e9ff..f5914f9 100644
--- a/sumo-api/sumo/threedee/box_3d.pyx
+++ b/sumo-api/sumo/threedee/box_3d.pyx
@@ -10,7 +10,7 @@ import os
 import re
 import xml.etree.cElementTree as ET
 
-from sumo.base.vector import Vector3f, vector_to_text
+from sumo.base.vector import Vector3f, vector_of_text, vector_to_text
 from sumo.threedee.mesh import Mesh
 from sumo.threedee.textured_mesh import TexturedMesh
 
@@ -184,13 +184,15 @@ class Box3d(object):
         # Parse the child tags
         for elem in base_elem:
             if (elem.tag == 'corner1'):
-                corner1 = np.fromstring(elem.text, sep=',')
-                if (corner1.size != 3):
-                    raise RuntimeError("Error parsing corner1. Extracted {} numbers but was expecting 3".format(corner1.size))
+                try:
+                    corner1 = vector_of_text(elem.text, 3)
+                except ValueError as e:
+                    raise RuntimeError("Error parsing corner1. " + str(e))
             elif (elem.tag == 'corner2'):
-                corner2 = np.fromstring(elem.text, sep=',')
-                if (corner2.size != 3):
-                    raise RuntimeError("Error parsing corner2. Extracted {} numbers but was expecting 3".format(corner2.size))
+                try:
+                    corner2 = vector_of_text(elem.text, 3)
+                except ValueError as e:
+                    raise RuntimeError("Error parsing corner2. " + str(e))
             else:
                 raise RuntimeError("Unexpected tag {}".format(elem.tag))
 
-- 
2.43.0


From 95f9854ea33fd750128cd68acefbc3902315cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 16/65] fix: glTF writer wrote null for empty materials and
 empty sections, which it cannot load back

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 34 ++++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 9094ef6..3fd7bb4 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4470,9 +4470,9 @@ bool TinyGLTF::WriteGltfSceneToFile(
   json output;
 
   // ACCESSORS
-  json accessors;
+  json accessors = json::array();
   for (unsigned int i = 0; i < model->accessors.size(); ++i) {
-    json accessor;
+    json accessor = json::object();
     SerializeGltfAccessor(model->accessors[i], accessor);
     accessors.push_back(accessor);
   }
@@ -4483,7 +4483,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
     json animations;
     for (unsigned int i = 0; i < model->animations.size(); ++i) {
       if (model->animations[i].channels.size()) {
-        json animation;
+        json animation = json::object();
         SerializeGltfAnimation(model->animations[i], animation);
         animations.push_back(animation);
       }
@@ -4513,9 +4513,9 @@ bool TinyGLTF::WriteGltfSceneToFile(
   std::string binSaveFilePath = JoinPath(baseDir, binFilename);
 
   // BUFFERS (We expect only one buffer here)
-  json buffers;
+  json buffers = json::array();
   for (unsigned int i = 0; i < model->buffers.size(); ++i) {
-    json buffer;
+    json buffer = json::object();
     if (embedBuffers) {
       SerializeGltfBuffer(model->buffers[i], buffer);
     } else {
@@ -4527,9 +4527,9 @@ bool TinyGLTF::WriteGltfSceneToFile(
   output["buffers"] = buffers;
 
   // BUFFERVIEWS
-  json bufferViews;
+  json bufferViews = json::array();
   for (unsigned int i = 0; i < model->bufferViews.size(); ++i) {
-    json bufferView;
+    json bufferView = json::object();
     SerializeGltfBufferView(model->bufferViews[i], bufferView);
     bufferViews.push_back(bufferView);
   }
@@ -4551,7 +4551,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->images.size()) {
     json images;
     for (unsigned int i = 0; i < model->images.size(); ++i) {
-      json image;
+      json image = json::object();
 
       UpdateImageObject(
           model->images[i],
@@ -4570,7 +4570,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->materials.size()) {
     json materials;
     for (unsigned int i = 0; i < model->materials.size(); ++i) {
-      json material;
+      json material = json::object();
       SerializeGltfMaterial(model->materials[i], material);
       materials.push_back(material);
     }
@@ -4581,7 +4581,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->meshes.size()) {
     json meshes;
     for (unsigned int i = 0; i < model->meshes.size(); ++i) {
-      json mesh;
+      json mesh = json::object();
       SerializeGltfMesh(model->meshes[i], mesh);
       meshes.push_back(mesh);
     }
@@ -4592,7 +4592,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->nodes.size()) {
     json nodes;
     for (unsigned int i = 0; i < model->nodes.size(); ++i) {
-      json node;
+      json node = json::object();
       SerializeGltfNode(model->nodes[i], node);
       nodes.push_back(node);
     }
@@ -4608,7 +4608,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->scenes.size()) {
     json scenes;
     for (unsigned int i = 0; i < model->scenes.size(); ++i) {
-      json currentScene;
+      json currentScene = json::object();
       SerializeGltfScene(model->scenes[i], currentScene);
       scenes.push_back(currentScene);
     }
@@ -4619,7 +4619,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->skins.size()) {
     json skins;
     for (unsigned int i = 0; i < model->skins.size(); ++i) {
-      json skin;
+      json skin = json::object();
       SerializeGltfSkin(model->skins[i], skin);
       skins.push_back(skin);
     }
@@ -4630,7 +4630,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->textures.size()) {
     json textures;
     for (unsigned int i = 0; i < model->textures.size(); ++i) {
-      json texture;
+      json texture = json::object();
       SerializeGltfTexture(model->textures[i], texture);
       textures.push_back(texture);
     }
@@ -4641,7 +4641,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->samplers.size()) {
     json samplers;
     for (unsigned int i = 0; i < model->samplers.size(); ++i) {
-      json sampler;
+      json sampler = json::object();
       SerializeGltfSampler(model->samplers[i], sampler);
       samplers.push_back(sampler);
     }
@@ -4652,7 +4652,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->cameras.size()) {
     json cameras;
     for (unsigned int i = 0; i < model->cameras.size(); ++i) {
-      json camera;
+      json camera = json::object();
       SerializeGltfCamera(model->cameras[i], camera);
       cameras.push_back(camera);
     }
@@ -4666,7 +4666,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->lights.size()) {
     json lights;
     for (unsigned int i = 0; i < model->lights.size(); ++i) {
-      json light;
+      json light = json::object();
       SerializeGltfLight(model->lights[i], light);
       lights.push_back(light);
     }
-- 
2.43.0


From 16f32589c5e67e798a4eb67a5b48732acf8974cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 17/65] fix: save_as_glb lost the file when given a relative
 path, and leaked its temporary folder

---
 sumo-api/sumo/threedee/gltf_model.pyx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 4f5e2fe..1e35be8 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -256,16 +256,13 @@ cdef class GltfModel:
               RunTimeError - if saveImages fails when writing gltf files
         """
         base_name = os.path.basename(path)
-        temp = tempfile.mkdtemp()
-        temp_folder = temp.decode('UTF-8') if hasattr(temp, 'decode') else temp
         root, extension = os.path.splitext(base_name)
         assert extension == ".glb"
+        temp = tempfile.mkdtemp()
+        temp_folder = temp.decode('UTF-8') if hasattr(temp, 'decode') else temp
         # Write object to files
-        current_dir = os.getcwd()
-        os.chdir(temp_folder)
         try:
             gltf_path = self.save_as_gltf(temp_folder, root)
             gltf2glb(gltf_path, path)
         finally:
             shutil.rmtree(temp_folder)
-            os.chdir(current_dir)
-- 
2.43.0


From 8efd6acb049bab2d5e62c86b201eea6f973b6154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 18/65] fix: gltf2glb misplaced views of later buffers, kept
 extra buffers, rejected models without buffers and packed short files

---
 sumo-api/sumo/threedee/glb_converter.pyx | 452 +++++++++++------------
 1 file changed, 221 insertions(+), 231 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 48cf4a5..b41a0e7 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,231 +1,221 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json["buffers"]):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
-        try:
-            bufview["byteOffset"] \
-                = bufview["byteOffset"] + buffer_map[bufview["buffer"]]
-        except KeyError:
-            bufview["byteOffset"] = 0
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import base64
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Declared length of the data, None if unknown
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+
+        Exceptions:
+        IOError - if the data is shorter than declared
+        """
+        if uri.startswith("data:"):
+            _, _, data = uri.partition(";base64,")
+            buf = bytearray(base64.b64decode(data))
+        else:
+            with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+                buf = bytearray(f.read())
+
+        if length is not None and len(buf) < length:
+            raise IOError("{} has {} bytes, expected {}".format(
+                uri[:80], len(buf), length))
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    # Pack all buffers in the single GLB buffer body
+    buffer_map = {}
+    for i, buf in enumerate(gltf_json.get("buffers", [])):
+        offset, _ = body_encoder.add_to_body(
+            buf["uri"], buf.get("byteLength"))
+        buffer_map[i] = offset
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    buffer_views = gltf_json.setdefault("bufferViews", [])
+    for bufview in buffer_views:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    for image in gltf_json.get("images", []):
+        if "bufferView" in image:
+            continue  # already in one of the buffers
+        uri = image["uri"]
+        if not uri:
+            raise ValueError("GLTF image has empty URI.")
+        offset, length = body_encoder.add_to_body(uri, None)
+
+        image["bufferView"] = len(buffer_views)
+        buffer_views.append({
+            "buffer": 0,
+            "byteOffset": offset,
+            "byteLength": length
+        })
+
+        fileType, fileEncoding = mimetypes.guess_type(uri)
+        image["mimeType"] = fileType
+        del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    # A GLB has at most one buffer, without uri: its body
+    gltf_json["buffers"] = [{"byteLength": body_encoder.body_length}] \
+        if body_encoder.body_length else []
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From b0f026ba786bce3e166c975b8a6133cfaa854b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 19/65] fix: glTF uris and paths went through shell expansion,
 which runs commands and breaks on spaces

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 36 ++------------------
 1 file changed, 3 insertions(+), 33 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 3fd7bb4..1313bfb 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1083,8 +1083,6 @@ class TinyGLTF {
 
 #ifdef _WIN32
 #include <windows.h>
-#elif !defined(__ANDROID__)
-#include <wordexp.h>
 #endif
 
 #if defined(__sparcv9)
@@ -1586,37 +1584,9 @@ std::string ExpandFilePath(const std::string& filepath, void*) {
   return s;
 #else
 
-#if defined(TARGET_OS_IPHONE) || defined(TARGET_IPHONE_SIMULATOR) || \
-    defined(__ANDROID__)
-  // no expansion
-  std::string s = filepath;
-#else
-  std::string s;
-  wordexp_t p;
-
-  if (filepath.empty()) {
-    return "";
-  }
-
-  // char** w;
-  int ret = wordexp(filepath.c_str(), &p, 0);
-  if (ret) {
-    // err
-    s = filepath;
-    return s;
-  }
-
-  // Use first element only.
-  if (p.we_wordv) {
-    s = std::string(p.we_wordv[0]);
-    wordfree(&p);
-  } else {
-    s = filepath;
-  }
-
-#endif
-
-  return s;
+  // No expansion: shell expansion would run commands found in a glTF uri, and
+  // not find files with a space in their path.
+  return filepath;
 #endif
 }
 
-- 
2.43.0


From 2decab310a7b9ab21b7865236e4624c8c88cbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 20/65] fix: copies of a mesh lost its material

---
 sumo-api/sumo/threedee/Mesh.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.h b/sumo-api/sumo/threedee/Mesh.h
index e7d2e1a..93b7b6a 100644
--- a/sumo-api/sumo/threedee/Mesh.h
+++ b/sumo-api/sumo/threedee/Mesh.h
@@ -99,10 +99,7 @@ class Mesh {
       const std::vector<Vertex>& vertices = std::vector<Vertex>(),
       const std::vector<Normal>& normals = std::vector<Normal>());
 
-  Mesh(const Mesh& other)
-      : indices_(other.indices()),
-        vertices_(other.vertices()),
-        normals_(other.normals()) {}
+  Mesh(const Mesh& other) = default;
 
   virtual ~Mesh() {}
 
-- 
2.43.0


From 53c58a0640e1800b0e8fbb7e0a601e8f6f8ea1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 21/65] fix: renumbering and merging meshes read and wrote out
 of bounds (bad counts, missing uv coordinates, merging with itself)

---
 sumo-api/sumo/threedee/Mesh.cpp          | 14 ++++++++++
 sumo-api/sumo/threedee/TexturedMesh.cpp  | 33 +++++++++++++++++++++++-
 sumo-api/sumo/threedee/mesh.pxd          |  2 +-
 sumo-api/sumo/threedee/textured_mesh.pxd |  4 +--
 4 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index deaeb98..7dc2cec 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -15,6 +15,7 @@ LICENSE file in the root directory of this source tree.
 #include "Mesh.h"
 
 #include <math.h>
+#include <stdexcept>
 
 namespace sumo {
 
@@ -148,6 +149,16 @@ Mesh Mesh::Example(
 }
 
 void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
+  if (numCommonVertices > numVertices()) {
+    throw invalid_argument("Mesh::merge: more common vertices than vertices.");
+  }
+  if (this == &mesh2) {
+    // The appends below would read what they are writing.
+    const Mesh copy(mesh2);
+    merge(copy, numCommonVertices);
+    return;
+  }
+
   // Merge the indices.
   const size_t offset = numVertices() - numCommonVertices;
   for (const size_t& index2 : mesh2.indices()) {
@@ -166,6 +177,9 @@ void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
 
 void Mesh::replaceGeometry(const Mesh& mesh2) {
   //Replace the geometry of the mesh.
+  if (this == &mesh2) {
+    return;
+  }
   indices_.clear();
   vertices_.clear();
   normals_.clear();
diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index 95fe44a..07a95b9 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -9,6 +9,7 @@ LICENSE file in the root directory of this source tree.
 
 #include <opencv2/highgui/highgui.hpp>
 #include <opencv2/imgproc/imgproc.hpp>
+#include <stdexcept>
 
 namespace sumo {
 
@@ -44,6 +45,19 @@ TexturedMesh::TexturedMesh(
 void TexturedMesh::renumber(
     size_t numNewVertices,
     vector<Index> vertexRenumbering) {
+  if (vertexRenumbering.size() > numVertices()) {
+    throw invalid_argument(
+        "TexturedMesh::renumber: renumbering more vertices than there are.");
+  }
+  for (const Index newIndex : vertexRenumbering) {
+    if (newIndex >= numNewVertices) {
+      throw invalid_argument(
+          "TexturedMesh::renumber: new index outside of the new block.");
+    }
+  }
+  // Not all vertices necessarily have uv coords, but they move with vertices
+  uvCoords_.resize(numVertices(), UVCoord::Zero());
+
   // renumber indices
   vector<Index> newIndices;
   newIndices.reserve(indices_.size());
@@ -76,6 +90,17 @@ void TexturedMesh::renumber(
 }
 
 void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
+  if (this == &mesh2) {
+    // The appends below would read what they are writing.
+    const TexturedMesh copy(mesh2);
+    merge(copy, numCommonVertices);
+    return;
+  }
+
+  // Not all vertices necessarily have uv coords, but appended ones have to
+  // stay aligned with their vertices
+  const size_t numVertices1 = numVertices();
+
   // Call base class method
   Mesh::merge(mesh2, numCommonVertices);
 
@@ -84,11 +109,17 @@ void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
     const auto append = [numCommonVertices](auto& a, const auto& b) {
       a.insert(a.end(), b.begin() + numCommonVertices, b.end());
     };
-    append(uvCoords_, mesh2.uvCoords());
+    vector<UVCoord> uvCoords2 = mesh2.uvCoords();
+    uvCoords2.resize(mesh2.numVertices(), UVCoord::Zero());
+    uvCoords_.resize(numVertices1, UVCoord::Zero());
+    append(uvCoords_, uvCoords2);
   }
 }
 
 void TexturedMesh::replaceGeometry(const TexturedMesh& mesh2) {
+  if (this == &mesh2) {
+    return;
+  }
   indices_.clear();
   vertices_.clear();
   normals_.clear();
diff --git a/sumo-api/sumo/threedee/mesh.pxd b/sumo-api/sumo/threedee/mesh.pxd
index d21ef81..38e8954 100644
--- a/sumo-api/sumo/threedee/mesh.pxd
+++ b/sumo-api/sumo/threedee/mesh.pxd
@@ -36,7 +36,7 @@ cdef extern from "sumo/threedee/Mesh.h" namespace "sumo":
     CMesh Example(double, bool)
     void cleanupLongEdges(float threshold)
     void cleanupEdgesToOrigin()
-    void merge(const CMesh&, size_t)
+    void merge(const CMesh&, size_t) except +
     void replaceGeometry(const CMesh&)
     bool hasSameMaterial(const CMesh&) const
 
diff --git a/sumo-api/sumo/threedee/textured_mesh.pxd b/sumo-api/sumo/threedee/textured_mesh.pxd
index 2b57385..dc457d7 100644
--- a/sumo-api/sumo/threedee/textured_mesh.pxd
+++ b/sumo-api/sumo/threedee/textured_mesh.pxd
@@ -25,8 +25,8 @@ cdef extern from "sumo/threedee/TexturedMesh.h" namespace "sumo":
     const vector[CVector2f]& uvCoords() const
     const Mat3b& baseColorTexture() const
     const Mat3b& metallicRoughnessTexture() const
-    void renumber(size_t, vector[unsigned int])
-    void merge(const CTexturedMesh&, size_t)
+    void renumber(size_t, vector[unsigned int]) except +
+    void merge(const CTexturedMesh&, size_t) except +
     void replaceGeometry(const CTexturedMesh&)
     bool hasDualTextureMaterial() const
 
-- 
2.43.0


From 87db6af6302ef7fc65c0f90d25721979b74ae0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 22/65] fix: has_same_material ignored colors and factors

---
 sumo-api/sumo/threedee/Mesh.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index 7dc2cec..2213fe2 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -188,19 +188,18 @@ void Mesh::replaceGeometry(const Mesh& mesh2) {
 
 }
 
-  /// Operator == for Parameter
-  // ::: TODO: This function is not correct.  It does not check all aspects
-  // of the parameter struct.  Furthermore, some aspects of the Parameter
-  // struct are unstable (that is, they are not initialized to known values,
-  // so comparing two Parameter objects is not really feasible with the
-  // tiny_gltf design.
+/// Operator == for Parameter
+// Note that number_value and bool_value are not initialized to known values,
+// so they are only compared when they are the value of the parameter.
 static bool parametersEqual(
     const tinygltf::Parameter& a,
     const tinygltf::Parameter& b) {
   return
     a.has_number_value == b.has_number_value &&
     a.string_value == b.string_value &&
-    a.json_double_value == b.json_double_value;
+    a.json_double_value == b.json_double_value &&
+    a.number_array == b.number_array &&
+    (!a.has_number_value || a.number_value == b.number_value);
 }
 
 /// Operator == for Parameter
-- 
2.43.0


From e923a5694d0f7a2c6ec27026bea4fa31cca7d259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 23/65] fix: metallic and roughness of colored materials were
 saved as garbage booleans

---
 sumo-api/sumo/threedee/GltfModel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index dd4fdc6..3fda1bd 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -633,15 +633,17 @@ size_t GltfModel::addColoredMaterial(
     double metallic,
     double roughness) {
   tinygltf::Parameter baseColorFactor;
-  tinygltf::Parameter metallicFactor, roughNessFactor;
+  tinygltf::Parameter metallicFactor, roughnessFactor;
   baseColorFactor.number_array = {color[0], color[1], color[2], 1};
   metallicFactor.number_value = metallic;
-  roughNessFactor.number_value = roughness;
+  metallicFactor.has_number_value = true;
+  roughnessFactor.number_value = roughness;
+  roughnessFactor.has_number_value = true;
   tinygltf::Material material;
   material.name = name;
   material.values["baseColorFactor"] = baseColorFactor;
   material.values["metallicFactor"] = metallicFactor;
-  material.values["roughNessFactor"] = roughNessFactor;
+  material.values["roughnessFactor"] = roughnessFactor;
 
   this->materials.push_back(material);
   // Return material id
-- 
2.43.0


From 95a7fda78c5a7637d854388750847d246fd51e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 24/65] fix: update_materials ignored colors with a zero
 channel

---
 sumo-api/sumo/threedee/GltfModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 3fda1bd..90758d5 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -561,7 +561,7 @@ void GltfModel::updateMaterial(
 
   // color == [0, 0, 0] implies no color, uri.size() == 0,
   // implies no texture
-  if (color[0] != 0 && color[1] != 0 && color[2] != 0) {
+  if (color[0] != 0 || color[1] != 0 || color[2] != 0) {
     // Update the color
     tinygltf::Parameter baseColorFactor;
     baseColorFactor.number_array = {color[0], color[1], color[2], 1};
-- 
2.43.0


From 0ade8756016b1b1b129d53026189e24674310163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 25/65] fix: a mesh with an empty texture image referred to the
 texture of another mesh

---
 sumo-api/sumo/threedee/GltfModel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 90758d5..4ac2029 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -331,6 +331,9 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
     } else {
       throw runtime_error("addTexturedPrimitiveMesh: inconsistent material.");
     }
+  } else {
+    // Without image, do not refer to a texture of another mesh
+    material.values.erase("baseColorTexture");
   }
 
   // Add metallic/roughness if it exists in mesh
@@ -343,6 +346,8 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
     } else {
       throw runtime_error("addTexturedPrimitiveMesh: inconsistent material.");
     }
+  } else {
+    material.values.erase("metallicRoughnessTexture");
   }
   this->materials.pop_back();
   this->materials.push_back(material);
-- 
2.43.0


From a6943b3f7b8ef2befeaae5fa3c3a29a6bd200279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 26/65] fix: failures to write the files of a glTF model were
 not reported

---
 sumo-api/sumo/threedee/GltfModel.cpp         |  7 +++++-
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 26 +++++++++++++-------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 4ac2029..9b43009 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -518,13 +518,18 @@ void GltfModel::saveImages(const string& folder) const {
     if (image.uri.empty()) {
       throw invalid_argument("GltfModel::saveImages: found empty image URI");
     }
+    bool written = false;
     try {
-      cv::imwrite(folder + "/" + image.uri, bgr);
+      written = cv::imwrite(folder + "/" + image.uri, bgr);
     } catch (cv::Exception& e) {
       throw runtime_error(
           "GltfModel::saveImages: OpenCV could not write " + image.uri +
           ", reason: " + e.what());
     }
+    if (!written) {
+      throw runtime_error(
+          "GltfModel::saveImages: OpenCV could not write " + image.uri);
+    }
   }
 }
 
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 1313bfb..746fe7e 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -3974,13 +3974,15 @@ static void SerializeGltfBufferData(
   SerializeStringProperty("uri", header + encodedData, o);
 }
 
-static void SerializeGltfBufferData(
+static bool SerializeGltfBufferData(
     const std::vector<unsigned char>& data,
     const std::string& binFilename) {
   std::ofstream output(binFilename.c_str(), std::ofstream::binary);
   output.write(
-      reinterpret_cast<const char*>(&data[0]), std::streamsize(data.size()));
+      reinterpret_cast<const char*>(data.data()),
+      std::streamsize(data.size()));
   output.close();
+  return !output.fail();
 }
 
 static void SerializeParameterMap(ParameterMap& param, json& o) {
@@ -4146,12 +4148,14 @@ static void SerializeGltfBuffer(Buffer& buffer, json& o) {
   }
 }
 
-static void SerializeGltfBuffer(
+static bool SerializeGltfBuffer(
     Buffer& buffer,
     json& o,
     const std::string& binFilename,
     const std::string& binBaseFilename) {
-  SerializeGltfBufferData(buffer.data, binFilename);
+  if (!SerializeGltfBufferData(buffer.data, binFilename)) {
+    return false;
+  }
   SerializeNumberProperty("byteLength", buffer.data.size(), o);
   SerializeStringProperty("uri", binBaseFilename, o);
 
@@ -4161,6 +4165,7 @@ static void SerializeGltfBuffer(
   if (buffer.extras.Type() != NULL_TYPE) {
     SerializeValue("extras", buffer.extras, o);
   }
+  return true;
 }
 
 static void SerializeGltfBufferView(BufferView& bufferView, json& o) {
@@ -4424,11 +4429,13 @@ static void SerializeGltfTexture(Texture& texture, json& o) {
   SerializeExtensionMap(texture.extensions, o);
 }
 
-static void WriteGltfFile(
+static bool WriteGltfFile(
     const std::string& output,
     const std::string& content) {
   std::ofstream gltfFile(output.c_str());
   gltfFile << content << std::endl;
+  gltfFile.close();
+  return !gltfFile.fail();
 }
 
 bool TinyGLTF::WriteGltfSceneToFile(
@@ -4489,8 +4496,10 @@ bool TinyGLTF::WriteGltfSceneToFile(
     if (embedBuffers) {
       SerializeGltfBuffer(model->buffers[i], buffer);
     } else {
-      SerializeGltfBuffer(
-          model->buffers[i], buffer, binSaveFilePath, binFilename);
+      if (!SerializeGltfBuffer(
+              model->buffers[i], buffer, binSaveFilePath, binFilename)) {
+        return false;
+      }
     }
     buffers.push_back(buffer);
   }
@@ -4658,8 +4667,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
     SerializeValue("extras", model->extras, output);
   }
 
-  WriteGltfFile(filename, output.dump());
-  return true;
+  return WriteGltfFile(filename, output.dump());
 }
 
 } // namespace tinygltf
-- 
2.43.0


From 16936fa4c43fc2172d87a683dc3a015d5b65121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 27/65] fix: all buffers of a glTF model were written to the
 same file

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 746fe7e..adcef77 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4487,17 +4487,19 @@ bool TinyGLTF::WriteGltfSceneToFile(
     baseDir = "./";
   }
 
-  std::string binSaveFilePath = JoinPath(baseDir, binFilename);
-
-  // BUFFERS (We expect only one buffer here)
+  // BUFFERS (usually only one, further ones need a file of their own)
   json buffers = json::array();
   for (unsigned int i = 0; i < model->buffers.size(); ++i) {
     json buffer = json::object();
     if (embedBuffers) {
       SerializeGltfBuffer(model->buffers[i], buffer);
     } else {
+      std::string prefix = i > 0 ? std::to_string(i) + "_" : "";
       if (!SerializeGltfBuffer(
-              model->buffers[i], buffer, binSaveFilePath, binFilename)) {
+              model->buffers[i],
+              buffer,
+              JoinPath(baseDir, prefix + binFilename),
+              prefix + binFilename)) {
         return false;
       }
     }
-- 
2.43.0


From f0c38f254fea684be445dee4ddf25f1b4dbea5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 28/65] fix: malformed or truncated glTF files were read out of
 bounds or ended the process

---
 sumo-api/sumo/threedee/gltf.pxd              |  7 +--
 sumo-api/sumo/threedee/gltf.pyx              | 16 ++++--
 sumo-api/sumo/threedee/gltf_model.pxd        |  8 +--
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 52 +++++++++++++++++---
 4 files changed, 66 insertions(+), 17 deletions(-)

diff --git a/sumo-api/sumo/threedee/gltf.pxd b/sumo-api/sumo/threedee/gltf.pxd
index 259fa33..d3b3d2e 100644
--- a/sumo-api/sumo/threedee/gltf.pxd
+++ b/sumo-api/sumo/threedee/gltf.pxd
@@ -43,13 +43,14 @@ cdef extern from "sumo/threedee/tiny_gltf/tiny_gltf.h" namespace "tinygltf":
   cdef cppclass CTinyGLTF "tinygltf::TinyGLTF":
     CTinyGLTF() except +
     bool LoadASCIIFromFile(CGltfModel* model, string* err,
-                           const string& filename)
-    bool WriteGltfSceneToFile(CGltfModel* model, const string& filename)
+                           const string& filename) except +
+    bool WriteGltfSceneToFile(CGltfModel* model,
+                              const string& filename) except +
 
     bool LoadBinaryFromFile(
       CGltfModel* model,
       string* err,
-      const string& filename)
+      const string& filename) except +
 
 
 # Python wrapper classes:
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index b13faee..0649ba9 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -47,7 +47,11 @@ cdef class TinyGLTF:
       model = GltfModel()
       cdef CGltfModel* c_model = model.c_ptr
       py_byte_string = path.encode('UTF-8')
-      cdef bool ret = self.c_ptr.LoadASCIIFromFile(c_model, &err, py_byte_string)
+      cdef bool ret
+      try:
+          ret = self.c_ptr.LoadASCIIFromFile(c_model, &err, py_byte_string)
+      except (RuntimeError, ValueError, IndexError) as e:
+          raise IOError("Failed to parse gltf file {}.  Error = {}".format(path, e))
       if not ret:
           raise IOError("Failed to parse gltf file {}.  Error = {}".format(path, err))
       return model
@@ -69,11 +73,15 @@ cdef class TinyGLTF:
       model = GltfModel()
       cdef CGltfModel* c_model = model.c_ptr
       py_byte_string = path.encode('UTF-8')
-      cdef bool ret = self.c_ptr.LoadBinaryFromFile(c_model, &err, py_byte_string)
-      # set the URI for the images
-      c_model.setURIs(b".png")
+      cdef bool ret
+      try:
+          ret = self.c_ptr.LoadBinaryFromFile(c_model, &err, py_byte_string)
+      except (RuntimeError, ValueError, IndexError) as e:
+          raise IOError("Failed to parse glb file {}.  Error = {}".format(path, e))
       if not ret:
           raise IOError("Failed to parse glb file {}.  Error = {}".format(path, err))
+      # set the URI for the images
+      c_model.setURIs(b".png")
       return model
 
   def write_gltf_scene_to_file(self, GltfModel model, unicode path):
diff --git a/sumo-api/sumo/threedee/gltf_model.pxd b/sumo-api/sumo/threedee/gltf_model.pxd
index a228110..b73a101 100644
--- a/sumo-api/sumo/threedee/gltf_model.pxd
+++ b/sumo-api/sumo/threedee/gltf_model.pxd
@@ -29,11 +29,11 @@ cdef extern from "sumo/threedee/GltfModel.h" namespace "sumo":
     vector[CImage] images
     vector[CMesh*] getPolymorphicPrimitiveMeshes() except +
     CGltfModel() except +
-    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh)
-    void addPrimitiveMesh(const CMesh& mesh)
+    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh) except +
+    void addPrimitiveMesh(const CMesh& mesh) except +
     void updateMaterial(size_t meshIndex, CVector3& color, string& uri,
-                        string& baseDir)
-    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness)
+                        string& baseDir) except +
+    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness) except +
     void setURIs(const string& extension) except +
     void saveImages(const string& folder) except +
 
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index adcef77..267dd9a 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1623,6 +1623,12 @@ bool ReadWholeFile(
   out->resize(sz);
   f.read(
       reinterpret_cast<char*>(&out->at(0)), static_cast<std::streamsize>(sz));
+  if (!f) {
+    if (err) {
+      (*err) += "File read error : " + filepath + "\n";
+    }
+    return false;
+  }
   f.close();
 
   return true;
@@ -2360,6 +2366,12 @@ static bool ParseBuffer(
   if (!ParseNumberProperty(&byteLength, err, o, "byteLength", true, "Buffer")) {
     return false;
   }
+  if (byteLength < 0) {
+    if (err) {
+      (*err) += "'byteLength' is negative in Buffer.\n";
+    }
+    return false;
+  }
 
   // In glTF 2.0, uri is not mandatory anymore
   buffer->uri.clear();
@@ -2424,8 +2436,7 @@ static bool ParseBuffer(
       }
 
       // Read buffer data
-      buffer->data.resize(static_cast<size_t>(byteLength));
-      memcpy(&(buffer->data.at(0)), bin_data, static_cast<size_t>(byteLength));
+      buffer->data.assign(bin_data, bin_data + bytes);
     }
 
   } else {
@@ -3484,6 +3495,21 @@ bool TinyGLTF::LoadFromString(
 
           const BufferView& bufferView =
               model->bufferViews[size_t(image.bufferView)];
+          if (size_t(bufferView.buffer) >= model->buffers.size() ||
+              bufferView.byteLength == 0 ||
+              bufferView.byteOffset >
+                  model->buffers[size_t(bufferView.buffer)].data.size() ||
+              bufferView.byteLength >
+                  model->buffers[size_t(bufferView.buffer)].data.size() -
+                      bufferView.byteOffset) {
+            if (err) {
+              std::stringstream ss;
+              ss << "bufferView \"" << image.bufferView
+                 << "\" is outside of its buffer." << std::endl;
+              (*err) += ss.str();
+            }
+            return false;
+          }
           const Buffer& buffer = model->buffers[size_t(bufferView.buffer)];
 
           if (*LoadImageData == nullptr) {
@@ -3787,7 +3813,7 @@ bool TinyGLTF::LoadBinaryFromMemory(
   // In case the Bin buffer is not present, the size is exactly 20 + size of
   // JSON contents,
   // so use "greater than" operator.
-  if ((20 + model_length > size) || (model_length < 1) ||
+  if ((length > size) || (model_length > size - 20) || (model_length < 1) ||
       (model_format != 0x4E4F534A)) { // 0x4E4F534A = JSON format.
     if (err) {
       (*err) = "Invalid glTF binary.";
@@ -3800,9 +3826,23 @@ bool TinyGLTF::LoadBinaryFromMemory(
       reinterpret_cast<const char*>(&bytes[20]), model_length);
 
   is_binary_ = true;
-  bin_data_ = bytes + 20 + model_length +
+  bin_data_ = nullptr;
+  bin_size_ = 0;
+  const size_t bin_offset = 20 + size_t(model_length) +
       8; // 4 bytes (buffer_length) + 4 bytes(buffer_format)
-  bin_size_ = length - (20 + model_length); // extract header + JSON scene data.
+  if (bin_offset <= size) {
+    unsigned int bin_length;
+    memcpy(&bin_length, bytes + bin_offset - 8, 4);
+    swap4(&bin_length);
+    if (bin_length > size - bin_offset) {
+      if (err) {
+        (*err) = "Truncated glTF binary.";
+      }
+      return false;
+    }
+    bin_data_ = bytes + bin_offset;
+    bin_size_ = bin_length;
+  }
 
   bool ret = LoadFromString(
       model,
@@ -3851,7 +3891,7 @@ bool TinyGLTF::LoadBinaryFromFile(
   bool ret = LoadBinaryFromMemory(
       model,
       err,
-      &data.at(0),
+      data.data(),
       static_cast<unsigned int>(data.size()),
       basedir,
       check_sections);
-- 
2.43.0


From 282033e0f20e414610dc1ef1ab4855bd39b37366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 29/65] fix: mesh extraction ignored strides, byte indices,
 accessor types and bounds

---
 sumo-api/sumo/threedee/GltfModel.cpp | 101 ++++++++++++++++++++++-----
 sumo-api/sumo/threedee/GltfModel.h   |  43 +++++++++---
 2 files changed, 116 insertions(+), 28 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 9b43009..c39df09 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -8,6 +8,7 @@ LICENSE file in the root directory of this source tree.
 #include <algorithm>
 #include <iostream>
 #include <limits>
+#include <memory>
 #include <string>
 
 #include "GltfModel.h"
@@ -72,7 +73,7 @@ pair<size_t, size_t> GltfModel::addDataToBuffer(
   size_t count = values.size();
   size_t numBytes = count * sizeof(float) * 3;
   size_t byteOffset = reallyAddToBuffer(
-      reinterpret_cast<const unsigned char*>(values[0].data()), numBytes);
+      reinterpret_cast<const unsigned char*>(values.data()), numBytes);
   return {byteOffset, numBytes};
 }
 
@@ -250,7 +251,8 @@ cv::Mat3b GltfModel::extractTexture(int textureId) const {
   const tinygltf::Texture& texture = this->textures[textureId];
 
   // Get image
-  if (texture.source >= static_cast<int>(this->images.size())) {
+  if (texture.source < 0 ||
+      texture.source >= static_cast<int>(this->images.size())) {
     throw runtime_error("GltfModel::extractTexture: invalid texture found.");
   }
   const tinygltf::Image& image = this->images[texture.source];
@@ -376,6 +378,18 @@ size_t GltfModel::numPrimitiveMeshes() const {
   return index;
 }
 
+// Check that accessor has expected component type and type
+static void checkAccessor(
+    const GltfModel& object,
+    int accessorIndex,
+    int componentType,
+    int type) {
+  if (getAccessorType(object, accessorIndex) != componentType ||
+      object.accessors[accessorIndex].type != type) {
+    throw runtime_error("GltfModel: unexpected accessor type.");
+  }
+}
+
 const tinygltf::Primitive& GltfModel::getPrimitiveMesh(
     const size_t meshIndex) const {
   size_t index = 0;
@@ -399,7 +413,12 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
   int component_type = getAccessorType(*this, indicesAccessorIndex);
   // If component type is 16-bit, convert to 32 bit since Mesh indices are
   // 32 bit.
-  if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_SHORT) {
+  if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_BYTE) {
+    auto indexAccessor =
+        getAccessor<unsigned char>(*this, indicesAccessorIndex);
+    vector<unsigned char> byte_indices = indexAccessor.asVector();
+    mesh->indices_.assign(byte_indices.begin(), byte_indices.end());
+  } else if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_SHORT) {
     auto indexAccessor =
         getAccessor<unsigned short>(*this, indicesAccessorIndex);
     vector<unsigned short> short_indices = indexAccessor.asVector();
@@ -407,18 +426,45 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
         short_indices.begin(), short_indices.end());
     mesh->indices_ = mesh_indices;
   } else {
+    checkAccessor(
+        *this,
+        indicesAccessorIndex,
+        TINYGLTF_COMPONENT_TYPE_UNSIGNED_INT,
+        TINYGLTF_TYPE_SCALAR);
     auto indexAccessor = getAccessor<unsigned int>(*this, indicesAccessorIndex);
     mesh->indices_ = indexAccessor.asVector();
   }
   // Get vertices
   int vertexAccessorIndex = primitive.attributes.at("POSITION");
+  checkAccessor(
+      *this,
+      vertexAccessorIndex,
+      TINYGLTF_COMPONENT_TYPE_FLOAT,
+      TINYGLTF_TYPE_VEC3);
   auto vertexAccessor = getAccessor<Mesh::Vertex>(*this, vertexAccessorIndex);
   mesh->vertices_ = vertexAccessor.asVector();
   // Get normals
   int normalAccessorIndex = primitive.attributes.at("NORMAL");
+  checkAccessor(
+      *this,
+      normalAccessorIndex,
+      TINYGLTF_COMPONENT_TYPE_FLOAT,
+      TINYGLTF_TYPE_VEC3);
   auto normalAccessor = getAccessor<Mesh::Vertex>(*this, normalAccessorIndex);
   mesh->normals_ = normalAccessor.asVector();
 
+  // Check that geometry is consistent
+  if (mesh->normals_.size() != mesh->vertices_.size()) {
+    throw runtime_error(
+        "GltfModel::extractPrimitiveMesh: need one normal per vertex.");
+  }
+  for (const Mesh::Index index : mesh->indices_) {
+    if (index >= mesh->vertices_.size()) {
+      throw runtime_error(
+          "GltfModel::extractPrimitiveMesh: vertex index out of bounds.");
+    }
+  }
+
   // Get material
   int materialId = primitive.material;
   if (materialId < 0 ||
@@ -445,9 +491,19 @@ void GltfModel::extractTexturedPrimitiveMesh(
         "GltfModel::extractTexturedMesh: Texture coordinates not found.");
   }
   int uvCoordAccessorIndex = primitive.attributes.at("TEXCOORD_0");
+  checkAccessor(
+      *this,
+      uvCoordAccessorIndex,
+      TINYGLTF_COMPONENT_TYPE_FLOAT,
+      TINYGLTF_TYPE_VEC2);
   auto uvCoordAccessor =
       getAccessor<TexturedMesh::UVCoord>(*this, uvCoordAccessorIndex);
   mesh->uvCoords_ = uvCoordAccessor.asVector();
+  if (mesh->uvCoords_.size() > mesh->vertices_.size()) {
+    throw runtime_error(
+        "GltfModel::extractTexturedMesh: more texture coordinates than "
+        "vertices.");
+  }
 
   // Get material
   int materialId = primitive.material;
@@ -476,21 +532,26 @@ void GltfModel::extractTexturedPrimitiveMesh(
 }
 
 vector<Mesh*> GltfModel::getPolymorphicPrimitiveMeshes() const {
-  vector<Mesh*> meshes;
+  vector<unique_ptr<Mesh>> meshes;
   for (size_t i = 0; i < this->numPrimitiveMeshes(); i++) {
     const tinygltf::Primitive& primitive = this->getPrimitiveMesh(i);
     // Distinguish textured mesh or mesh by whether it has texture coords
     if (primitive.attributes.find("TEXCOORD_0") != primitive.attributes.end()) {
-      auto mesh = new TexturedMesh();
-      extractTexturedPrimitiveMesh(i, mesh);
-      meshes.push_back(mesh);
+      unique_ptr<TexturedMesh> mesh(new TexturedMesh());
+      extractTexturedPrimitiveMesh(i, mesh.get());
+      meshes.push_back(move(mesh));
     } else {
-      auto mesh = new Mesh();
-      extractPrimitiveMesh(i, mesh);
-      meshes.push_back(mesh);
+      unique_ptr<Mesh> mesh(new Mesh());
+      extractPrimitiveMesh(i, mesh.get());
+      meshes.push_back(move(mesh));
     }
   }
-  return meshes;
+  // All succeeded, hand over ownership
+  vector<Mesh*> result;
+  for (auto& mesh : meshes) {
+    result.push_back(mesh.release());
+  }
+  return result;
 }
 
 void GltfModel::setURIs(const string& extension) {
@@ -609,14 +670,16 @@ size_t GltfModel::loadTexture(
     throw runtime_error("loadTexture: Empty file: " + filename);
   }
   tinygltf::Image image;
-  tinygltf::LoadImageData(
-      &image,
-      nullptr,
-      0,
-      0,
-      &bytes.at(0),
-      static_cast<int>(bytes.size()),
-      nullptr);
+  if (!tinygltf::LoadImageData(
+          &image,
+          nullptr,
+          0,
+          0,
+          &bytes.at(0),
+          static_cast<int>(bytes.size()),
+          nullptr)) {
+    throw runtime_error("loadTexture: invalid image file: " + filename);
+  }
 
   size_t start = uri.find_last_of("/") + 1;
   size_t end = uri.find_last_of(".");
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 9756763..3751480 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -17,6 +17,7 @@ LICENSE file in the root directory of this source tree.
 
 #include <Eigen/Core>
 
+#include <cstring>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -194,8 +195,7 @@ class GltfModel : public tinygltf::Model {
 
 /**
  * Class for getting elements from buffers associated with an object.
- * Accesses scalar values only, and does no bounds checking on access.
- * TODO: fix that, and make working with strides.
+ * Views and accesses are bounds checked.
  */
 template <class T>
 class GltfAccessor {
@@ -231,7 +231,9 @@ class GltfAccessor {
     if (j >= tinyAccessor_.count) {
       throw std::invalid_argument("GltfAccessor[]: invalid element index");
     }
-    return pointer_[j];
+    T value;
+    memcpy(&value, pointer_ + j * stride_, sizeof(T));
+    return value;
   }
 
   // Return all elements in an STL vector
@@ -251,23 +253,46 @@ class GltfAccessor {
  private:
   // Calculate pointer_, assumes tinyAccessor_ is initialized correctly
   void calculatePointer(const GltfModel& object) {
-    if (tinyAccessor_.bufferView >=
-        static_cast<int>(object.bufferViews.size())) {
+    if (tinyAccessor_.bufferView < 0 ||
+        tinyAccessor_.bufferView >=
+            static_cast<int>(object.bufferViews.size())) {
       throw std::invalid_argument("GltfAccessor: invalid bufferView index");
     }
     const tinygltf::BufferView& view =
         object.bufferViews[tinyAccessor_.bufferView];
 
-    if (view.buffer >= static_cast<int>(object.buffers.size())) {
+    if (view.buffer < 0 ||
+        view.buffer >= static_cast<int>(object.buffers.size())) {
       throw std::invalid_argument("GltfAccessor: invalid buffer index");
     }
     const tinygltf::Buffer& buffer = object.buffers[view.buffer];
-    pointer_ = reinterpret_cast<const T*>(
-        buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset);
+
+    // Elements are packed unless the view has a stride larger than an element
+    const size_t elementSize =
+        tinygltf::GetComponentSizeInBytes(tinyAccessor_.componentType) *
+        tinygltf::GetTypeSizeInBytes(tinyAccessor_.type);
+    stride_ = view.byteStride > elementSize ? view.byteStride : sizeof(T);
+
+    // All elements have to be in the buffer
+    const size_t size = buffer.data.size();
+    if (view.byteOffset > size ||
+        tinyAccessor_.byteOffset > size - view.byteOffset) {
+      throw std::invalid_argument("GltfAccessor: offset outside of buffer");
+    }
+    const size_t available =
+        size - view.byteOffset - tinyAccessor_.byteOffset;
+    if (tinyAccessor_.count > 0 &&
+        (sizeof(T) > available ||
+         tinyAccessor_.count - 1 > (available - sizeof(T)) / stride_)) {
+      throw std::invalid_argument("GltfAccessor: elements outside of buffer");
+    }
+    pointer_ =
+        buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset;
   }
 
   tinygltf::Accessor tinyAccessor_; // underlying tinygltf::Accessor
-  const T* pointer_; // pointer to associated memory
+  const unsigned char* pointer_; // pointer to associated memory
+  size_t stride_; // distance between elements in bytes
 };
 
 /**
-- 
2.43.0


From 65658535b9e2c7f457d7daec5d750c158a95bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 30/65] fix: point cloud operations could leave points and
 colors misaligned, or read past the end

---
 sumo-api/sumo/threedee/PointCloud.h    | 21 ++++++++++++++++-----
 sumo-api/sumo/threedee/point_cloud.pxd |  6 +++---
 sumo-api/sumo/threedee/point_cloud.pyx | 11 ++++++-----
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/sumo-api/sumo/threedee/PointCloud.h b/sumo-api/sumo/threedee/PointCloud.h
index 8634aae..d4506ac 100644
--- a/sumo-api/sumo/threedee/PointCloud.h
+++ b/sumo-api/sumo/threedee/PointCloud.h
@@ -7,6 +7,7 @@ LICENSE file in the root directory of this source tree.
 
 #pragma once
 
+#include <stdexcept>
 #include <vector>
 #include "sumo/base/Vector.h"
 
@@ -39,8 +40,9 @@ class PointCloud {
       const std::vector<sumo::Vector3>& points,
       const std::vector<Color>& colors = {})
       : points_(points), colors_(colors) {
-    if (!colors.empty()) {
-      assert(points.size() == colors.size());
+    if (!colors.empty() && points.size() != colors.size()) {
+      throw std::invalid_argument(
+          "A point cloud needs one color per point, or no colors at all.");
     }
   }
 
@@ -51,7 +53,10 @@ class PointCloud {
       num_points += cloud->points_.size();
       num_colors += cloud->colors_.size();
     }
-    assert(num_colors == 0 || num_colors == num_points);
+    if (num_colors != 0 && num_colors != num_points) {
+      throw std::invalid_argument(
+          "Can't merge colored point cloud with non-colored point cloud.");
+    }
     points_.reserve(num_points);
     colors_.reserve(num_colors);
     for (const PointCloud* cloud : clouds) {
@@ -63,7 +68,13 @@ class PointCloud {
   }
 
   // Append the points (and colors) of the other instance. Imperative.
+  // Throws if only one of them has colors (an empty cloud goes with both).
   void append(const PointCloud& other) {
+    if (numPoints() != 0 && other.numPoints() != 0 &&
+        colored() != other.colored()) {
+      throw std::invalid_argument(
+          "Can't merge colored point cloud with non-colored point cloud.");
+    }
     points_.reserve(points_.size() + other.points_.size());
     points_.insert(points_.end(), other.points_.begin(), other.points_.end());
     colors_.reserve(colors_.size() + other.colors_.size());
@@ -75,7 +86,7 @@ class PointCloud {
   }
 
   const sumo::Vector3& point(size_t i) const {
-    return points_[i];
+    return points_.at(i);
   }
 
   const std::vector<Color>& colors() const {
@@ -83,7 +94,7 @@ class PointCloud {
   }
 
   const Color& color(size_t i) const {
-    return colors_[i];
+    return colors_.at(i);
   }
 
   size_t numPoints() const {
diff --git a/sumo-api/sumo/threedee/point_cloud.pxd b/sumo-api/sumo/threedee/point_cloud.pxd
index 241a673..b05f7ea 100644
--- a/sumo-api/sumo/threedee/point_cloud.pxd
+++ b/sumo-api/sumo/threedee/point_cloud.pxd
@@ -25,11 +25,11 @@ cdef extern from "sumo/threedee/PointCloud.h" namespace "sumo":
     CPointCloud(const vector[CVector3]&) except +
     CPointCloud(const vector[CVector3]&, const vector[CColor]&) except +
     CPointCloud(const vector[const CPointCloud*]&) except +
-    void append(const CPointCloud& other)
+    void append(const CPointCloud& other) except +
     const vector[CVector3]& points() const
-    const CVector3& point(size_t) const
+    const CVector3& point(size_t) except +
     const vector[CColor]& colors() const
-    const CColor& color(size_t) const
+    const CColor& color(size_t) except +
     size_t numPoints() const
     bool colored() const
 
diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 10c79f7..1914fe2 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -23,7 +23,7 @@ cdef np.ndarray numpy_of_color(CColor color):
   return np.array([color.r, color.g, color.b], dtype=np.uint8)
 
 # Convert single color from Python to C++
-cdef CColor color_of_numpy(np.ndarray color):
+cdef CColor color_of_numpy(np.ndarray color) except *:
   cdef CColor c
   c.r = color[0]
   c.g = color[1]
@@ -39,7 +39,7 @@ cdef np.ndarray array_of_colors(vector[CColor] colors):
   return result
 
 # Convert colors from Python to C++
-cdef vector[CColor] colors_of_array(np.ndarray colors):
+cdef vector[CColor] colors_of_array(np.ndarray colors) except *:
   cdef vector[CColor] cpp_colors
   cdef CColor cpp_color
   for i in range(colors.shape[1]):
@@ -77,9 +77,10 @@ cdef class PointCloud:
 
   @classmethod
   def merge(cls, first, second):
-      """ Return a new instance that merges the two point clouds."""
-      if first.colored() and not second.colored():
-          raise ValueError("Can't merge colored point cloud with non-colored point cloud.")
+      """ Return a new instance that merges the two point clouds.
+          Exceptions:
+          ValueError - if one has points without colors, the other with colors
+      """
       result = cls()
       result.append(first)
       result.append(second)
-- 
2.43.0


From 49ecdd207d4136caa2ffd09e18497c53139e93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 31/65] fix: PLY files with other coordinate types or order
 were misread, failures ended the process or were not reported

---
 sumo-api/sumo/threedee/point_cloud_ply.pxd   |   6 +-
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp | 114 ++++++++++++++++---
 sumo-api/sumo/threedee/tinyply/tinyply.cpp   |   4 +-
 3 files changed, 104 insertions(+), 20 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply.pxd b/sumo-api/sumo/threedee/point_cloud_ply.pxd
index a7d2759..b825499 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply.pxd
+++ b/sumo-api/sumo/threedee/point_cloud_ply.pxd
@@ -10,15 +10,15 @@ from libcpp.vector cimport vector
 cdef extern from "sumo/threedee/point_cloud_ply_c.h" namespace "sumo":
 
   # This is a wrapper for the function readPoints
-  cdef vector[float] readPoints(const char* filename)
+  cdef vector[float] readPoints(const char* filename) except +IOError
 
   # This is a wrapper for the function writePoints
   cdef void writePoints(
     vector[float]& vertex_points,
-    const char* filename)
+    const char* filename) except +IOError
 
   # This is a wrapper for the function writePointsAndColor
   cdef void writePointsAndColors(
     vector[float]& vertex_points,
     vector[unsigned char]& vertex_colors,
-    const char* filename)
+    const char* filename) except +IOError
diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index 2456c73..4e147f8 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -20,6 +20,74 @@ using namespace tinyply;
 
 namespace sumo {
 
+namespace {
+
+// Check the header before any memory is allocated for the data.
+void checkHeader(const PlyFile& file, istream& ss, const string& filename) {
+  const auto start = ss.tellg();
+  ss.seekg(0, ios::end);
+  const size_t numBytes = ss.tellg() - start;
+  ss.seekg(start);
+  for (const PlyElement& element : file.get_elements()) {
+    if (element.size > numBytes) { // even one byte each is too much
+      throw runtime_error("readPoints truncated data in " + filename);
+    }
+    for (const PlyProperty& property : element.properties) {
+      if (property.propertyType == Type::INVALID ||
+          (property.isList && property.listType == Type::INVALID)) {
+        throw runtime_error("readPoints unknown property type in " + filename);
+      }
+    }
+  }
+}
+
+// Convert <count> values of type T to float, writing every third float.
+template <typename T>
+void copyAs(const uint8_t* from, size_t count, float* to) {
+  for (size_t i = 0; i < count; i++) {
+    T value;
+    memcpy(&value, from + i * sizeof(T), sizeof(T));
+    to[3 * i] = static_cast<float>(value);
+  }
+}
+
+void copyCoordinates(PlyData& data, size_t count, float* to) {
+  const uint8_t* from = data.buffer.get();
+  switch (data.t) {
+    case Type::INT8:
+      return copyAs<int8_t>(from, count, to);
+    case Type::UINT8:
+      return copyAs<uint8_t>(from, count, to);
+    case Type::INT16:
+      return copyAs<int16_t>(from, count, to);
+    case Type::UINT16:
+      return copyAs<uint16_t>(from, count, to);
+    case Type::INT32:
+      return copyAs<int32_t>(from, count, to);
+    case Type::UINT32:
+      return copyAs<uint32_t>(from, count, to);
+    case Type::FLOAT32:
+      return copyAs<float>(from, count, to);
+    case Type::FLOAT64:
+      return copyAs<double>(from, count, to);
+    case Type::INVALID:
+      throw runtime_error("readPoints unknown property type");
+  }
+}
+
+// Write everything out, making sure that it got there.
+void writeAndClose(PlyFile& file, filebuf& fb, const string& filename) {
+  ostream outputStream(&fb);
+  file.write(outputStream, true);
+  outputStream.flush();
+  const bool complete = outputStream.good();
+  if (!fb.close() || !complete) {
+    throw runtime_error("writePoints error while writing " + filename);
+  }
+}
+
+} // namespace
+
 // return a set of points that is read from a ply file specified by the filename
 vector<float> readPoints(const string& filename) {
   // Tinyply can and will throw exceptions at you!
@@ -34,18 +102,34 @@ vector<float> readPoints(const string& filename) {
 
   // Parse the ASCII header fields
   PlyFile file;
-  file.parse_header(ss);
-  // The count returns the number of instances of the property group. The
-  // vectors above will be resized into a multiple of the property group size
-  // as they are "flattened"... i.e. vertices = {x, y, z, x, y, z, ...}
-  shared_ptr<PlyData> vertexData =
-      file.request_properties_from_element("vertex", {"x", "y", "z"});
+  if (!file.parse_header(ss) || !ss.good()) {
+    throw runtime_error("readPoints malformed header in " + filename);
+  }
+  checkHeader(file, ss, filename);
+
+  // The coordinates are requested one by one, as their order and types may
+  // differ from file to file.
+  vector<shared_ptr<PlyData>> coordinates = {
+      file.request_properties_from_element("vertex", {"x"}),
+      file.request_properties_from_element("vertex", {"y"}),
+      file.request_properties_from_element("vertex", {"z"})};
+
+  for (const auto& coordinate : coordinates) {
+    if (coordinate->isList) {
+      throw runtime_error("readPoints coordinates are lists in " + filename);
+    }
+  }
 
   file.read(ss);
+  if (ss.fail()) {
+    throw runtime_error("readPoints truncated or malformed data in " + filename);
+  }
 
-  const size_t numVerticesBytes = vertexData->buffer.size_bytes();
-  vector<float> vertices(3 * vertexData->count);
-  memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
+  const size_t numVertices = coordinates[0]->count;
+  vector<float> vertices(3 * numVertices);
+  for (size_t c = 0; c < 3; c++) {
+    copyCoordinates(*coordinates[c], numVertices, vertices.data() + c);
+  }
 
   return vertices;
 }
@@ -68,15 +152,17 @@ void writePoints(vector<float>& vertex_points, const string& filename) {
       reinterpret_cast<uint8_t*>(vertex_points.data()),
       Type::INVALID,
       0);
-  ostream outputStream(&fb);
-  myFile.write(outputStream, true);
-  fb.close();
+  writeAndClose(myFile, fb, filename);
 }
 
 void writePointsAndColors(
     vector<float>& vertex_points,
     vector<unsigned char>& vertex_colors,
     const string& filename) {
+  if (vertex_points.size() != vertex_colors.size()) {
+    throw invalid_argument("writePointsAndColors needs one color per point");
+  }
+
   // Tinyply does not perform any file i/o internally
   filebuf fb;
   fb.open(filename, ios::out | ios::binary);
@@ -102,9 +188,7 @@ void writePointsAndColors(
       reinterpret_cast<uint8_t*>(vertex_colors.data()),
       Type::INVALID,
       0);
-  ostream outputStream(&fb);
-  myFile.write(outputStream, true);
-  fb.close();
+  writeAndClose(myFile, fb, filename);
 }
 
 } // namespace sumo
diff --git a/sumo-api/sumo/threedee/tinyply/tinyply.cpp b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
index 475090d..19dd6db 100755
--- a/sumo-api/sumo/threedee/tinyply/tinyply.cpp
+++ b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
@@ -339,7 +339,7 @@ size_t PlyFile::PlyFileImpl::skip_property_binary(
     size_t listSize = 0;
     size_t dummyCount = 0;
     read_property_binary(p.listType, &listSize, dummyCount, is);
-    for (size_t i = 0; i < listSize; ++i)
+    for (size_t i = 0; i < listSize && is; ++i)
       is.read((char*)scratch, stride);
     return listSize * stride; // in bytes
   } else {
@@ -358,7 +358,7 @@ size_t PlyFile::PlyFileImpl::skip_property_ascii(
     size_t listSize = 0;
     size_t dummyCount = 0;
     read_property_ascii(p.listType, &listSize, dummyCount, is);
-    for (size_t i = 0; i < listSize; ++i) {
+    for (size_t i = 0; i < listSize && is; ++i) {
       is >> skip;
     }
     return listSize * stride; // in bytes
-- 
2.43.0


From c9f5d01c89ecbb50c50ef4e34562e0d1b8d0f8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 32/65] fix: failed writes and truncated or unusual RGB-D TIFF
 files were not reported or read out of bounds

---
 sumo-api/sumo/images/RgbdTiff.cpp | 67 ++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 8ecd17d..e776236 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -7,6 +7,7 @@ LICENSE file in the root directory of this source tree.
 
 #include "RgbdTiff.h"
 #include "picojson.h"
+#include <memory>
 #include <stdexcept>
 
 // These constants are used for our metadata reading/writing
@@ -18,6 +19,9 @@ using namespace std;
 
 namespace sumo {
 
+// Closes the file when it goes out of scope, also when an exception is thrown
+typedef std::unique_ptr<TIFF, void (*)(TIFF*)> TiffHandle;
+
 const std::map<std::string, TiffPageType> kStrToPageType = {
   {"rgb", TiffPageType::RGB},
   // We include the "depth" -> InversDepth mapping here due to backwards
@@ -131,21 +135,23 @@ void writeMetadata(TIFF*tiff, const TiffMetadata& meta) {
 // 3. 16-bit 1-channel depth image
 bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
   int status;
-  uint32 width, height;
-  uint16 samplesPerPixel;
-  uint16 bitsPerSample;
-  TIFFGetField(tiff, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
+  uint32 width = 0, height = 0;
+  uint16 samplesPerPixel = 0;
+  uint16 bitsPerSample = 0;
+  TIFFGetFieldDefaulted(tiff, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
   if (samplesPerPixel != 3 && samplesPerPixel != 1) {
     throw runtime_error("readImage: unexpected channel count");
   }
 
-  TIFFGetField(tiff, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
-  if (bitsPerSample != 8 && bitsPerSample != 16) {
+  TIFFGetFieldDefaulted(tiff, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
+  if (bitsPerSample != 8 && !(bitsPerSample == 16 && samplesPerPixel == 1)) {
     throw runtime_error("readImage: unexpected bits per sample");
   }
 
-  TIFFGetField(tiff, TIFFTAG_IMAGEWIDTH, &width);
-  TIFFGetField(tiff, TIFFTAG_IMAGELENGTH, &height);
+  if (TIFFGetField(tiff, TIFFTAG_IMAGEWIDTH, &width) != 1 ||
+      TIFFGetField(tiff, TIFFTAG_IMAGELENGTH, &height) != 1) {
+    throw runtime_error("readImage: image size missing");
+  }
   TiffPageType pageType = readTiffPageType(tiff, samplesPerPixel);
   auto pageEntry = pageMap->find(pageType);
   if (pageEntry == pageMap->end()) {
@@ -154,6 +160,9 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
   }
 
   cv::Mat* img = pageEntry->second;
+  if (!img->empty()) {
+    throw runtime_error("readImage: more than one page of the same type");
+  }
   if (samplesPerPixel == 3) {
     img->create(height, width, CV_8UC3);
   }
@@ -166,10 +175,14 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
     img->create(height, width, CV_8UC1);
   }
 
-  // TODO: is stride always channels*width for new Mat image?
-  size_t stride = samplesPerPixel * width * (bitsPerSample / 8);
+  // Other layouts (e.g., planar) do not have one pixel row per scanline
+  size_t stride = static_cast<size_t>(samplesPerPixel) * width *
+      (bitsPerSample / 8);
+  if (static_cast<size_t>(TIFFScanlineSize(tiff)) != stride) {
+    throw runtime_error("readImage: unexpected image layout");
+  }
   for (unsigned int y = 0; y < height; ++y) {
-    status = TIFFReadScanline(tiff, (void*)(img->data + y * stride), y, 0);
+    status = TIFFReadScanline(tiff, (void*)img->ptr(y), y, 0);
     if (status == -1) {
       throw runtime_error("readImage: error reading scanline");
     }
@@ -186,15 +199,27 @@ void readRgbdTiff(
     const string& path,
     TiffPageMap* const pageMap,
     TiffMetadata* const meta) {
-  TIFF* tiff = TIFFOpen(path.c_str(), "r");
+  TiffHandle handle(TIFFOpen(path.c_str(), "r"), TIFFClose);
+  TIFF* tiff = handle.get();
   if (!tiff) {
     throw runtime_error("readRgbdTiff: can't open TIFF file " + path);
   }
   // Metadata is always written to first page
   readMetadata(tiff, meta);
+  // Total number of pages, 0 if not recorded in the file
+  uint16 pageIndex = 0, totalPages = 0;
+  TIFFGetField(tiff, TIFFTAG_PAGENUMBER, &pageIndex, &totalPages);
   // Keep reading images until there are none left
-  while(readImage(tiff, pageMap) && TIFFReadDirectory(tiff));
-  TIFFClose(tiff);
+  uint16 numPages = 1;
+  while (readImage(tiff, pageMap) && !TIFFLastDirectory(tiff)) {
+    if (!TIFFReadDirectory(tiff)) {
+      throw runtime_error("readRgbdTiff: can't read next page of " + path);
+    }
+    numPages++;
+  }
+  if (totalPages != 0 && numPages != totalPages) {
+    throw runtime_error("readRgbdTiff: missing pages in " + path);
+  }
 }
 
 // Writes a single image to the given TIFF object
@@ -220,13 +245,15 @@ void writeImage(
   TIFFSetField(tiff, TIFFTAG_PAGENAME, pageName.c_str());
   TIFFSetField(tiff, TIFFTAG_COMPRESSION, COMPRESSION_DEFLATE);
 
-  // TODO: is stride always correct for every Mat image?
-  size_t stride = img.channels() * img.cols * (bitsPerSample / 8);
   for (int y = 0; y < img.rows; ++y) {
-    TIFFWriteScanline(tiff, (void*)(img.data + y * stride), y, 0);
+    if (TIFFWriteScanline(tiff, (void*)img.ptr(y), y, 0) != 1) {
+      throw runtime_error("writeImage: error writing scanline");
+    }
   }
 
-  TIFFWriteDirectory(tiff);
+  if (TIFFWriteDirectory(tiff) != 1) {
+    throw runtime_error("writeImage: error writing page");
+  }
 }
 
 // Write a multi-image TIFF to the path specified
@@ -243,7 +270,8 @@ void writeRgbdTiff(
   if (pageMap.find(TiffPageType::InverseDepth) == pageMap.end()) {
     throw runtime_error("writeRgbdTiff: Depth image not found");
   }
-  TIFF* tiff = TIFFOpen(path.c_str(), "w");
+  TiffHandle handle(TIFFOpen(path.c_str(), "w"), TIFFClose);
+  TIFF* tiff = handle.get();
   if (!tiff) {
     throw runtime_error("writeRgbdTiff: can't open TIFF file " + path);
   }
@@ -265,7 +293,6 @@ void writeRgbdTiff(
         tiff, *image, pageType, pageIndex, static_cast<uint16>(pageMap.size()));
     pageIndex++;
   }
-  TIFFClose(tiff);
 }
 
 } // namespace sumo
-- 
2.43.0


From 0f66b933523a1ca5b517d72bebde45b8be2a8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 33/65] fix: images that are not contiguous or have the wrong
 type ended the process when saved

---
 sumo-api/sumo/images/rgbd_tiff.pyx |  7 ++++++-
 sumo-api/sumo/opencv/wrap.pxd      | 10 +++++-----
 sumo-api/sumo/opencv/wrap.pyx      | 10 +++++-----
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/sumo-api/sumo/images/rgbd_tiff.pyx b/sumo-api/sumo/images/rgbd_tiff.pyx
index d500cc6..c34bbee 100644
--- a/sumo-api/sumo/images/rgbd_tiff.pyx
+++ b/sumo-api/sumo/images/rgbd_tiff.pyx
@@ -98,6 +98,8 @@ def load(unicode path):
       else:
         page_map[MultiImagePageType.Depth] = array_from_mat1w(<Mat1w>it.second[0])
     elif it.first == TiffPageType.Category or it.first == TiffPageType.Instance:
+      if it.second[0].channels() != 1:
+        raise ValueError("rgbd_tiff.load category or instance does not have 1 channel")
       page_map[kTiffToMultiImagePageType[it.first]] = array_from_mat1w(<Mat1w>it.second[0])
     del it.second
 
@@ -135,7 +137,10 @@ def save(page_map_np, unicode path, near=id.DEFAULT_NEAR):
 
   cdef np.ndarray inv_depth
   cdef TiffPageMap page_map
-  for page_type, img_np in page_map_np.items():
+  # OpenCV needs the rows to be contiguous; keep any copies until written
+  contiguous = {page_type: np.ascontiguousarray(img_np)
+                for page_type, img_np in page_map_np.items()}
+  for page_type, img_np in contiguous.items():
     if page_type == MultiImagePageType.Depth:
       inv_depth = id.inverse_depth_map_of_depth_image(img_np, near)
       page_map[TiffPageType.InverseDepth] = <Mat*>mat1w_from_array(inv_depth)
diff --git a/sumo-api/sumo/opencv/wrap.pxd b/sumo-api/sumo/opencv/wrap.pxd
index d87aa94..4a3c9c4 100644
--- a/sumo-api/sumo/opencv/wrap.pxd
+++ b/sumo-api/sumo/opencv/wrap.pxd
@@ -70,11 +70,11 @@ cdef extern from "<opencv2/core/core.hpp>" namespace "cv":
 
 # Convert from numpy to opencv
 # NOTE: these do not copy memory, but provide "views" onto the numpy data.
-cdef Mat* mat_from_array(np.ndarray array) except +
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except +
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except +
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except +
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except +
+cdef Mat* mat_from_array(np.ndarray array) except NULL
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL
 
 # Convert from opencv to numpy
 # NOTE: these *do* copy data, i.e., they assume OpenCV owns the memory buffer.
diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f3a735b..f2e79e5 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -12,7 +12,7 @@ from libc.string cimport memcpy
 from libc.stdint cimport uint16_t
 
 
-cdef Mat* mat_from_array(np.ndarray array):
+cdef Mat* mat_from_array(np.ndarray array) except NULL:
   """ Convert numpy array to generic OpenCV Mat.
       Keyword arguments:
           array -- numpy array, 3-channel uint8 or 1-channel uint8 or float32
@@ -40,7 +40,7 @@ cdef Mat* mat_from_array(np.ndarray array):
       raise ValueError('mat_from_array failed')
   return mat
 
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1b* mat = new Mat1b(
       array.shape[0], array.shape[1], <unsigned char*>array.data, array.strides[0])
@@ -48,12 +48,12 @@ cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
       raise ValueError('mat1b_from_array failed')
   return mat
 
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array):
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned short*>array.data != <unsigned short*>0
   return new Mat1w(
       array.shape[0], array.shape[1], <unsigned short*>array.data, array.strides[0])
 
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1f* mat = new Mat1f(
       array.shape[0], array.shape[1], <np.float32_t*>array.data, array.strides[0])
@@ -61,7 +61,7 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
       raise ValueError('mat1f_from_array failed')
   return mat
 
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array):
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
   assert <Vec3b*>array.data != <Vec3b*>0
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
-- 
2.43.0


From 62373d78fb6df5651ff591b9539b6ffdc557a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 34/65] fix: unprojecting a cube map image that is too wide or
 not contiguous ended the process

---
 sumo-api/sumo/images/rgbdci_360.pxd | 2 +-
 sumo-api/sumo/images/rgbdci_360.pyx | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/images/rgbdci_360.pxd b/sumo-api/sumo/images/rgbdci_360.pxd
index 41c53dc..8812ab6 100644
--- a/sumo-api/sumo/images/rgbdci_360.pxd
+++ b/sumo-api/sumo/images/rgbdci_360.pxd
@@ -16,4 +16,4 @@ from sumo.opencv.wrap cimport Mat3b, Mat1f
 cdef extern from "sumo/images/Rgbdci360.h" namespace "sumo":
   cdef CPointCloud* createPointCloud(const Mat3b& rgb,
                                      const Mat1f& range,
-                                     bool all_points);
+                                     bool all_points) except +
diff --git a/sumo-api/sumo/images/rgbdci_360.pyx b/sumo-api/sumo/images/rgbdci_360.pyx
index af95a19..39b731f 100644
--- a/sumo-api/sumo/images/rgbdci_360.pyx
+++ b/sumo-api/sumo/images/rgbdci_360.pyx
@@ -126,7 +126,9 @@ class Rgbdci360(object):
         if self.rgb.shape[0:2] != self.range.shape[0:2]:
             raise ValueError("create_point_cloud needs rgb and range sizes to agree.")
 
-        return create_point_cloud_(self.rgb, self.range, all_points)
+        return create_point_cloud_(np.ascontiguousarray(self.rgb),
+                                   np.ascontiguousarray(self.range),
+                                   all_points)
 
 
 #---------------
-- 
2.43.0


From a91617cc6c99ce578fe28228b3f2de126ced0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 35/65] fix: the color of the first category id past the end
 raised IndexError

---
 sumo-api/sumo/base/colored_category.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/colored_category.pyx b/sumo-api/sumo/base/colored_category.pyx
index 20b7d15..e60efd8 100644
--- a/sumo-api/sumo/base/colored_category.pyx
+++ b/sumo-api/sumo/base/colored_category.pyx
@@ -112,7 +112,7 @@ class ColoredCategory(object):
         Exceptions:
         KeyError - if category_id does not exist in the dataset config.
         """
-        if category_id > len(self._data) or category_id < 0:
+        if category_id >= len(self._data) or category_id < 0:
             raise KeyError("Category id {} does not exist.".format(category_id))
         return self._data[category_id]["color"]
 
-- 
2.43.0


From dfd179e69b294a9f6d446571d796e95af6d2277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 36/65] fix: interrupted, short or damaged downloads counted as
 downloaded for good

---
 tools/download_sumo_datasets.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index b168617..c99fee8 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -29,6 +29,7 @@ import logging
 import os
 import shutil
 import zipfile
+import zlib
 from functools import partial
 from multiprocessing import Pool
 
@@ -73,7 +74,10 @@ def read_config(args):
 
 
 def download_one(args, zip_filename):
-    """Downloads one zip file in a single process."""
+    """Downloads one zip file in a single process.  The file only gets its final
+    name once it is complete."""
+    zip_file_path = os.path.join(args.destination_dir, zip_filename)
+    part_file_path = zip_file_path + ".part"
     try:
         logging.info("Downloading {}.".format(zip_filename))
         server_url = "{}/training/{}".format(args.server_name, zip_filename)
@@ -83,7 +87,7 @@ def download_one(args, zip_filename):
                 "Cannot read zip file {} from the server".format(zip_filename)
             )
         total_length = int(response.headers.get("content-length"))
-        with open(os.path.join(args.destination_dir, zip_filename), "wb") as f:
+        with open(part_file_path, "wb") as f:
             if total_length == 0:
                 f.write(response.content)
             else:
@@ -98,16 +102,21 @@ def download_one(args, zip_filename):
                     if chunk:
                         f.write(chunk)
                         f.flush()
+        if os.path.getsize(part_file_path) < total_length:
+            raise RuntimeError(
+                "Connection closed before the end of {}".format(zip_filename)
+            )
+        os.replace(part_file_path, zip_file_path)
 
     except KeyboardInterrupt:
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_file_path):
+            os.remove(part_file_path)
         raise
 
     except Exception as e:
         logging.error(e)
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_file_path):
+            os.remove(part_file_path)
 
 
 def unzip_one(args, file):
@@ -129,6 +138,11 @@ def unzip_one(args, file):
     except KeyboardInterrupt:
         raise
 
+    except (zipfile.BadZipFile, zlib.error, EOFError) as e:
+        # the zip file is damaged, so it has to be downloaded again
+        logging.error(e)
+        os.remove(zip_file_path)
+
     except Exception as e:
         logging.error(e)
 
@@ -239,11 +253,11 @@ def get_zip_file_count(args):
     all_zip_files = args.training_input + args.training_ground_truth
     existing_zip_files = [
         os.path.basename(x)
-        for x in glob.glob(os.path.join(args.destination_dir, "*.zip"))
+        for x in glob.glob(os.path.join(glob.escape(args.destination_dir), "*.zip"))
     ]
     extracted_zip_files = [
         os.path.basename(x.replace(".cache", ".zip"))
-        for x in glob.glob(os.path.join(args.cache_folder, "*.cache"))
+        for x in glob.glob(os.path.join(glob.escape(args.cache_folder), "*.cache"))
     ]
     remaining_zip_files_to_be_downloaded = remove_existing_files(
         all_zip_files, existing_zip_files + extracted_zip_files
-- 
2.43.0


From 55a366ff662bfd580ebc8572d93cf52560068993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 37/65] fix: meshes without vertices extended the bounds of a
 model to the origin

---
 sumo-api/sumo/threedee/compute_bbox.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/compute_bbox.pyx b/sumo-api/sumo/threedee/compute_bbox.pyx
index fc837db..16d8ce3 100644
--- a/sumo-api/sumo/threedee/compute_bbox.pyx
+++ b/sumo-api/sumo/threedee/compute_bbox.pyx
@@ -56,7 +56,9 @@ class ComputeBbox(object):
 
             Return: Box3d object
         """
-        boxes = [self.from_point_cloud(mesh.vertices()) for mesh in meshes]
+        # meshes without vertices do not take up any space
+        boxes = [self.from_point_cloud(mesh.vertices()) for mesh in meshes
+                 if mesh.num_vertices() > 0]
         return Box3d.merge(boxes)
 
     def from_gltf_object(self, gltf_model):
-- 
2.43.0


From 4d5c29aaad7bf32258cb8617a9aa8cf3114deaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 38/65] fix: sampled colors were read with texture rows and
 columns swapped, models without faces failed

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 6 +++---
 sumo-api/sumo/threedee/model_sampler.pyx | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 93bdca7..b0a5f10 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -35,7 +35,7 @@ def sample_element(element, density=625):
     # count the # of faces in all the component meshes
     # and allocate space for faces
     counts = [m.num_indices() for m in element.meshes.primitive_meshes()]
-    n_faces3 = np.sum(counts)  # 3 x num faces
+    n_faces3 = sum(counts)  # 3 x num faces
     faces = np.zeros((n_faces3, 6))
 
     # build faces list from element component meshes
@@ -61,8 +61,8 @@ def sample_element(element, density=625):
         else:
             uv_coords = posed_mesh.uv_coords()  # 2 x N_verts
             temp2 = uv_coords[:, posed_mesh.indices()]  # 2 x N_indices
-            r = np.mod(np.floor(temp2[0, :] * h).astype(int), h)  # 1 x n_vertices
-            c = np.mod(np.floor(temp2[1, :] * w).astype(int), w)  # "
+            r = np.mod(np.floor(temp2[1, :] * h).astype(int), h)  # 1 x n_vertices
+            c = np.mod(np.floor(temp2[0, :] * w).astype(int), w)  # "
             colors = posed_mesh.base_color()[r, c, :]
 
         faces[start:start + counts[i], 3:6] = colors
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index 6db6298..c402b14 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -31,7 +31,7 @@ class ModelSampler(object):
         # count the # of faces in all the component meshes
         # and allocate space for faces
         counts = [m.num_indices() for m in model.primitive_meshes()]
-        n_faces3 = np.sum(counts)  # 3 x num faces
+        n_faces3 = sum(counts)  # 3 x num faces
         faces = np.zeros((n_faces3, 6))
 
         # build faces list from element component meshes
@@ -54,8 +54,8 @@ class ModelSampler(object):
             else:
                 uv_coords = mesh.uv_coords()  # 2 x N_verts
                 temp2 = uv_coords[:, mesh.indices()]  # 2 x N_indices
-                r = np.mod(np.floor(temp2[0,:] * h).astype(int), h)  # 1 x n_vertices
-                c = np.mod(np.floor(temp2[1,:] * w).astype(int), w)  # "
+                r = np.mod(np.floor(temp2[1,:] * h).astype(int), h)  # 1 x n_vertices
+                c = np.mod(np.floor(temp2[0,:] * w).astype(int), w)  # "
                 colors = mesh.base_color()[r, c, :]
 
             faces[start:start+counts[i], 3:6] = colors
@@ -102,7 +102,7 @@ def _sample_mesh(faces, density=625):
     N = np.sum(Nsamples_per_face)  # N = total # of samples
 
     if N == 0:
-        return np.empty((0, 3))
+        return np.empty((0, faces.shape[1]))
 
     face_ids = np.zeros((N,), dtype=int)  # reserve space for result
 
-- 
2.43.0


From 21372fbc071ffea4d2658044d8ea5b042805e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 39/65] fix: Euler angles of rotations at the singularity were
 arbitrary or failed

---
 sumo-api/sumo/metrics/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 4bc0528..692e6cb 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -143,9 +143,14 @@ def quat_to_euler(q):
     atan2( 2*(qy.*qz+qw.*qx), qw.^2 - qx.^2 - qy.^2 + qz.^2 )];
 
     """
+    sin_y = -2 * (q[1] * q[3] - q[0] * q[2])
+    if abs(sin_y) > 1 - 1e-14:
+        # gimbal lock: z and x rotate about the same axis, so x can be chosen as 0
+        sign = math.copysign(1, sin_y)
+        return np.array([-2 * sign * math.atan2(q[1], q[0]), sign * math.pi / 2, 0.0])
     return np.array([math.atan2(2 * (q[1] * q[2] + q[0] * q[3]),
                                 q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3]),
-                     math.asin(-2 * (q[1] * q[3] - q[0] * q[2])),
+                     math.asin(sin_y),
                      math.atan2(2 * (q[2] * q[3] + q[0] * q[1]),
                                 q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3])])
 
-- 
2.43.0


From fb5db8aca34c4368a782c6ebf350195f0df6f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 40/65] fix: rotation error of cylindrically symmetric objects
 depended on the rotation about the axis

---
 sumo-api/sumo/metrics/evaluator.py | 34 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index c562832..5fc5a61 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -380,6 +380,7 @@ class Evaluator():
 
         # collect a list of equvalent rots for the target object in rots_to_check
         rots_to_check = [gt_element.pose.R]
+        cylindrical_axes = []
         for (axis, sym) in enumerate(sym_list):
             if sym == SymmetryType.spherical:
                 # spherical means 0 error
@@ -396,11 +397,16 @@ class Evaluator():
                     for rot in rots_to_check])
                 rots_to_check.extend(new_rots)
             elif sym == SymmetryType.cylindrical:
-                rots_to_check = [
-                    self.cylindrical_symmetric_rot(det_element.pose.R, rot, axis)
-                    for rot in rots_to_check]
+                cylindrical_axes.append(axis)
             # else sym = SymmetryType.none -> do nothing
 
+        # this depends on the rotation of the detection, so it has to come after
+        # all other symmetries
+        for axis in cylindrical_axes:
+            rots_to_check = [
+                self.cylindrical_symmetric_rot(det_element.pose.R, rot, axis)
+                for rot in rots_to_check]
+
         # get minimum error
         # Eq. 8, source: https://chrischoy.github.io/research/measuring-rotation/
         errors = [np.sqrt(0.5) *
@@ -422,8 +428,8 @@ class Evaluator():
 
     def cylindrical_symmetric_rot(self, det_rot, gt_rot, axis):
         """
-        Compute rot that zeroes out the rotation error between
-        <det_rot> and <gt_rot> along axis <axis>.
+        Compute the rot closest to <det_rot> among <gt_rot> pre-rotated by any
+        angle about axis <axis>.
 
         Inputs
         det_rot (Rot3) - rotation for detection
@@ -431,18 +437,16 @@ class Evaluator():
         axis (int) - cylindrical rotation axis (0=x, 1=y, 2=z)
 
         Return:
-        Rot3 - new rotation matrix with gt set to det rotation on target axis
+        Rot3 - <gt_rot> pre-rotated to match <det_rot> on target axis
 
         Algorithm:
-        1. convert to zyx Euler angles
-        2. set gt to detection value for target axis
-        3. convert back to matrix rep
-        """
-        det_euler = utils.matrix_to_euler(det_rot.R)
-        gt_euler = utils.matrix_to_euler(gt_rot.R)
-        # note e[0] is z
-        gt_euler[2 - axis] = det_euler[2 - axis]
-        return Rot3(utils.euler_to_matrix(gt_euler))
+        The trace of the difference rotation (and with it the cosine of its angle)
+        is a sinusoid in the pre-rotation angle with a closed form maximum.
+        """
+        diff = np.matmul(gt_rot.R.T, det_rot.R)
+        j, k = (axis + 1) % 3, (axis + 2) % 3
+        angle = math.atan2(diff[k, j] - diff[j, k], diff[j, j] + diff[k, k])
+        return self.symmetric_rot(gt_rot, axis, angle)
 
     def rms_points_error(self):
         """
-- 
2.43.0


From 4f04107983f48995853b2abb038d1a43fcba2514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 41/65] fix: voxel evaluation interchanged submission and
 ground truth

---
 sumo-api/sumo/metrics/voxel_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/voxel_evaluator.py b/sumo-api/sumo/metrics/voxel_evaluator.py
index f8dca81..ac5cedb 100644
--- a/sumo-api/sumo/metrics/voxel_evaluator.py
+++ b/sumo-api/sumo/metrics/voxel_evaluator.py
@@ -48,7 +48,7 @@ class VoxelEvaluator(Evaluator):
             posed_corners = e.pose.transform_all_from(bbox_corners)
             e.posed_bbox = ComputeBbox().from_point_cloud(posed_corners)
 
-        super(VoxelEvaluator, self).__init__(ground_truth, submission, settings)
+        super(VoxelEvaluator, self).__init__(submission, ground_truth, settings)
 
     def evaluate_all(self):
         """
-- 
2.43.0


From 38c0d6818ab6654c78ee4003b64c120df2611965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 42/65] fix: mesh evaluation failed without settings,
 evaluation changed the caller's settings

---
 sumo-api/sumo/metrics/evaluator.py      | 3 ++-
 sumo-api/sumo/metrics/mesh_evaluator.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index 5fc5a61..1b071c3 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -57,7 +57,8 @@ class Evaluator():
         settings (dict) - configuration for the evaluator.  See top of
           file for recognized attributes and values.
         """
-        self._settings = self.default_settings() if settings is None else settings
+        # copied because the thresholds are sorted
+        self._settings = dict(self.default_settings() if settings is None else settings)
         self._settings["thresholds"] = np.sort(self._settings["thresholds"])
         self._submission = submission
         self._ground_truth = ground_truth
diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index b0a5f10..7a33a13 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -137,6 +137,9 @@ class MeshEvaluator(Evaluator):
         Evaluator.py for recognized keys and values.
         """
 
+        if settings is None:
+            settings = self.default_settings()
+
         # sample submission and GT and store in points field
         # also compute bounding box of each posed object
         for e in submission.elements.values():
-- 
2.43.0


From 109f9abd719bc84437ea1d7617c6398e83ca2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 43/65] fix: images without pixels were saved to files that
 cannot be read

---
 sumo-api/sumo/images/RgbdTiff.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index e776236..8d53566 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -259,6 +259,7 @@ void writeImage(
 // Write a multi-image TIFF to the path specified
 // Exceptions are thrown in the following scenarios:
 // - pageMap does not have entries for RGB or depth images
+// - an image has no pixels
 // - cannot open specified path for writing
 void writeRgbdTiff(
     const TiffPageMap& pageMap,
@@ -270,6 +271,11 @@ void writeRgbdTiff(
   if (pageMap.find(TiffPageType::InverseDepth) == pageMap.end()) {
     throw runtime_error("writeRgbdTiff: Depth image not found");
   }
+  for (const auto& page : pageMap) {
+    if (page.second->empty()) { // would be written, but could not be read
+      throw runtime_error("writeRgbdTiff: image without pixels");
+    }
+  }
   TiffHandle handle(TIFFOpen(path.c_str(), "w"), TIFFClose);
   TIFF* tiff = handle.get();
   if (!tiff) {
-- 
2.43.0


From 05ee0779e54826cdcdde2d95705de319d6eebf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 44/65] fix: a texture loaded for a material could refer to a
 sampler that the model does not have

---
 sumo-api/sumo/threedee/GltfModel.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index c39df09..cf2270c 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -260,6 +260,19 @@ cv::Mat3b GltfModel::extractTexture(int textureId) const {
   return cvImageFromImage(image);
 }
 
+// Add default sampler if there is none
+//TODO: Read sampler from input glTF file and write back the same sampler.
+static void addDefaultSampler(vector<tinygltf::Sampler>* samplers) {
+  if (samplers->size() == 0) {
+    tinygltf::Sampler sampler;
+    sampler.minFilter = TINYGLTF_TEXTURE_FILTER_NEAREST_MIPMAP_LINEAR;
+    sampler.magFilter = TINYGLTF_TEXTURE_FILTER_LINEAR;
+    sampler.wrapS = TINYGLTF_TEXTURE_WRAP_REPEAT;
+    sampler.wrapT = TINYGLTF_TEXTURE_WRAP_REPEAT;
+    samplers->push_back(sampler);
+  }
+}
+
 void GltfModel::addPrimitiveMesh(const Mesh& mesh) {
   //Add Mesh to model.
   // Create buffer.
@@ -355,15 +368,7 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
   this->materials.push_back(material);
 
   // Add default sampler
-  //TODO: Read sampler from input glTF file and write back the same sampler.
-  if (this->samplers.size() == 0) {
-    tinygltf::Sampler sampler;
-    sampler.minFilter = TINYGLTF_TEXTURE_FILTER_NEAREST_MIPMAP_LINEAR;
-    sampler.magFilter = TINYGLTF_TEXTURE_FILTER_LINEAR;
-    sampler.wrapS = TINYGLTF_TEXTURE_WRAP_REPEAT;
-    sampler.wrapT = TINYGLTF_TEXTURE_WRAP_REPEAT;
-    this->samplers.push_back(sampler);
-  }
+  addDefaultSampler(&this->samplers);
 
 }
 
@@ -695,6 +700,7 @@ size_t GltfModel::loadTexture(
   texture.source = this->images.size() - 1;
   texture.sampler = 0;  // Default sampler.
   this->textures.push_back(texture);
+  addDefaultSampler(&this->samplers);
 
   // Return texture id
   return this->textures.size() - 1;
-- 
2.43.0


From 5257a5f2e49da762d210f2b6ef5cb5bcd1af619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 45/65] fix: glTF files with numbers out of range or invalid
 primitives were read in part or as other data

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 90 ++++++++++++++------
 1 file changed, 65 insertions(+), 25 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 267dd9a..da02f54 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -39,6 +39,7 @@
 
 #include <array>
 #include <cassert>
+#include <climits>
 #include <cstdint>
 #include <cstring>
 #include <map>
@@ -1955,6 +1956,31 @@ static bool ParseNumberProperty(
   return true;
 }
 
+// Parse an offset, length or count: a number that is not negative and small
+// enough to be converted. Keeps the value in ret if it is not required and
+// absent.
+static bool ParseSizeProperty(
+    double* ret,
+    std::string* err,
+    const json& o,
+    const std::string& property,
+    const bool required,
+    const std::string& parent_node) {
+  if (!required && o.find(property) == o.end()) {
+    return true;
+  }
+  if (!ParseNumberProperty(ret, err, o, property, true, parent_node)) {
+    return false;
+  }
+  if (!(*ret >= 0.0 && *ret <= 9007199254740992.0)) { // 2^53
+    if (err) {
+      (*err) += "'" + property + "' is out of range in " + parent_node + ".\n";
+    }
+    return false;
+  }
+  return true;
+}
+
 static bool ParseNumberArrayProperty(
     std::vector<double>* ret,
     std::string* err,
@@ -2096,6 +2122,14 @@ static bool ParseStringIntProperty(
       return false;
     }
 
+    const double value = dictIt.value().get<double>();
+    if (!(value >= INT_MIN && value <= INT_MAX)) {
+      if (err) {
+        (*err) += "'" + property + "' value is out of range.\n";
+      }
+      return false;
+    }
+
     // Insert into the list.
     (*ret)[dictIt.key()] = static_cast<int>(dictIt.value());
   }
@@ -2247,7 +2281,8 @@ static bool ParseImage(
 
   if (hasBufferView) {
     double bufferView = -1;
-    if (!ParseNumberProperty(&bufferView, err, o, "bufferView", true)) {
+    if (!ParseSizeProperty(&bufferView, err, o, "bufferView", true, "Image") ||
+        bufferView > INT_MAX) {
       if (err) {
         (*err) += "Failed to parse `bufferView` for Image.\n";
       }
@@ -2363,13 +2398,7 @@ static bool ParseBuffer(
     const unsigned char* bin_data = nullptr,
     size_t bin_size = 0) {
   double byteLength;
-  if (!ParseNumberProperty(&byteLength, err, o, "byteLength", true, "Buffer")) {
-    return false;
-  }
-  if (byteLength < 0) {
-    if (err) {
-      (*err) += "'byteLength' is negative in Buffer.\n";
-    }
+  if (!ParseSizeProperty(&byteLength, err, o, "byteLength", true, "Buffer")) {
     return false;
   }
 
@@ -2470,26 +2499,28 @@ ParseBufferView(BufferView* bufferView, std::string* err, const json& o) {
   }
 
   double byteOffset = 0.0;
-  ParseNumberProperty(&byteOffset, err, o, "byteOffset", false);
+  if (!ParseSizeProperty(
+          &byteOffset, err, o, "byteOffset", false, "BufferView")) {
+    return false;
+  }
 
   double byteLength = 1.0;
-  if (!ParseNumberProperty(
+  if (!ParseSizeProperty(
           &byteLength, err, o, "byteLength", true, "BufferView")) {
     return false;
   }
 
-  size_t byteStride = 0;
+  // Spec says: When byteStride of referenced bufferView is not defined, it
+  // means that accessor elements are tightly packed, i.e., effective stride
+  // equals the size of the element.
+  // We cannot determine the actual byteStride until Accessor are parsed, thus
+  // set 0(= tightly packed) here(as done in OpenGL's VertexAttribPoiner)
   double byteStrideValue = 0.0;
-  if (!ParseNumberProperty(&byteStrideValue, err, o, "byteStride", false)) {
-    // Spec says: When byteStride of referenced bufferView is not defined, it
-    // means that accessor elements are tightly packed, i.e., effective stride
-    // equals the size of the element.
-    // We cannot determine the actual byteStride until Accessor are parsed, thus
-    // set 0(= tightly packed) here(as done in OpenGL's VertexAttribPoiner)
-    byteStride = 0;
-  } else {
-    byteStride = static_cast<size_t>(byteStrideValue);
+  if (!ParseSizeProperty(
+          &byteStrideValue, err, o, "byteStride", false, "BufferView")) {
+    return false;
   }
+  size_t byteStride = static_cast<size_t>(byteStrideValue);
 
   if ((byteStride > 252) || ((byteStride % 4) != 0)) {
     if (err) {
@@ -2532,7 +2563,10 @@ static bool ParseAccessor(Accessor* accessor, std::string* err, const json& o) {
   }
 
   double byteOffset = 0.0;
-  ParseNumberProperty(&byteOffset, err, o, "byteOffset", false, "Accessor");
+  if (!ParseSizeProperty(
+          &byteOffset, err, o, "byteOffset", false, "Accessor")) {
+    return false;
+  }
 
   bool normalized = false;
   ParseBooleanProperty(&normalized, err, o, "normalized", false, "Accessor");
@@ -2544,7 +2578,7 @@ static bool ParseAccessor(Accessor* accessor, std::string* err, const json& o) {
   }
 
   double count = 0.0;
-  if (!ParseNumberProperty(&count, err, o, "count", true, "Accessor")) {
+  if (!ParseSizeProperty(&count, err, o, "count", true, "Accessor")) {
     return false;
   }
 
@@ -2665,11 +2699,17 @@ static bool ParseMesh(Mesh* mesh, std::string* err, const json& o) {
          i != primObject.value().end();
          i++) {
       Primitive primitive;
-      if (ParsePrimitive(&primitive, err, i.value())) {
-        // Only add the primitive if the parsing succeeds.
-        mesh->primitives.push_back(primitive);
+      // A mesh without one of its primitives would be another mesh.
+      if (!ParsePrimitive(&primitive, err, i.value())) {
+        return false;
       }
+      mesh->primitives.push_back(primitive);
     }
+  } else {
+    if (err) {
+      (*err) += "'primitives' is missing or not an array in Mesh.\n";
+    }
+    return false;
   }
 
   // Look for morph targets
-- 
2.43.0


From a61099bb7ee0fc69fc1fa9e8ed478108a263aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 46/65] fix: RMS errors counted matches with objects that are
 not evaluated

---
 sumo-api/sumo/metrics/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 692e6cb..de745c6 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -498,6 +498,8 @@ def points_rmsssd(evaluator, submission, ground_truth, voxels=False):
     rmsssd1 = []  # list of rmsssd per correspondence
     for t in settings["thresholds"]:
         for det_id in data_assoc[t]:
+            if not data_assoc[t][det_id].evaluated:
+                continue  # this ground truth element is not part of the metric
             if det_id not in rmsssd_cache:
                 rmsssd_cache[det_id] = {}
             gt_id = data_assoc[t][det_id].gt_id
@@ -557,6 +559,8 @@ def color_rmsssd(evaluator, submission, ground_truth, voxels=False):
     rmssscd1 = []  # list of rmssscd per correspondence
     for t in settings["thresholds"]:
         for det_id in data_assoc[t]:
+            if not data_assoc[t][det_id].evaluated:
+                continue  # this ground truth element is not part of the metric
             if det_id not in rmssscd_cache:
                 rmssscd_cache[det_id] = {}
             gt_id = data_assoc[t][det_id].gt_id
-- 
2.43.0


From 5e3238ce5f27a00db411593ca8c62c3dfae0eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 47/65] fix: nearest neighbour distances were a column instead
 of a vector

---
 sumo-api/sumo/metrics/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index de745c6..93712d8 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -469,6 +469,8 @@ def nearest_neighbors(points1, points2):
         dist2to1, ind2to1 = tree1.query(points2)
         ind1to2 = ind1to2.flatten()
         ind2to1 = ind2to1.flatten()
+        dist1to2 = dist1to2.flatten()
+        dist2to1 = dist2to1.flatten()
     return ind1to2, ind2to1, dist1to2, dist2to1
 
 
-- 
2.43.0


From 7b54b7d7a73c9c58b66c8beed5c18e9a6e1081cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 48/65] fix: an empty detection score in a scene file failed
 with TypeError

---
 sumo-api/sumo/semantic/project_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 7b0f817..bafbfe1 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -365,7 +365,7 @@ class ProjectObject(object):
             elif elem.tag == "symmetry":
                 symmetry = ObjectSymmetry.from_xml(elem)
             elif elem.tag == "detectionScore":
-                score = float(elem.text)
+                score = float(elem.text or "")
             elif elem.tag == "evaluated":
                 evaluated = elem.text in ["True", "true"]
 
-- 
2.43.0


From 803d4d7ad6718d58a1c99ba711a584df1fb24c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 49/65] fix: voxel files with malformed contents were read as
 if they were valid

---
 sumo-api/sumo/threedee/voxel_grid.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index bfee62e..a781b5d 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -197,11 +197,25 @@ class VoxelGrid(object):
         """
         try:
             with h5py.File(filename, "r") as f:
-                voxels_3d = np.array(f["voxels_3d"], np.int32)
+                stored_voxels = np.array(f["voxels_3d"])
                 scale = f.attrs["scale"]
                 min_corner = np.array(f.attrs["min_corner"])
                 size_x = f.attrs["size_x"]
                 size_y = f.attrs["size_y"]
+            voxels_3d = stored_voxels.astype(np.int32)
+            if voxels_3d.ndim != 2 or voxels_3d.shape[1] != 3:
+                raise ValueError("voxels_3d is not an N x 3 array")
+            if not np.array_equal(voxels_3d, stored_voxels) or np.any(voxels_3d < 0):
+                raise ValueError("voxel indices must be integers >= 0")
+            if len(np.unique(voxels_3d, axis=0)) != len(voxels_3d):
+                raise ValueError("a voxel is stored more than once")
+            if not (scale > 0 and np.isfinite(scale)):
+                raise ValueError("scale must be > 0")
+            if min_corner.shape != (3,) or not np.all(np.isfinite(min_corner)):
+                raise ValueError("min_corner is not a point")
+            for i, size in enumerate([size_x, size_y]):
+                if size != int(size) or np.any(voxels_3d[:, i] >= size):
+                    raise ValueError("size of the voxel space is wrong")
         except Exception as e:
             raise IOError("voxel file read failed. Err: " + str(e))
         self._voxels_3d = voxels_3d
-- 
2.43.0


From 3b125e6a599a8f5bad480f415227e312d8c01972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 50/65] fix: glTF files with fractional indices, or properties
 of the wrong type, were read as other data

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 126 +++++++++++++------
 1 file changed, 89 insertions(+), 37 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index da02f54..834ed3b 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -40,6 +40,7 @@
 #include <array>
 #include <cassert>
 #include <climits>
+#include <cmath>
 #include <cstdint>
 #include <cstring>
 #include <map>
@@ -1956,7 +1957,7 @@ static bool ParseNumberProperty(
   return true;
 }
 
-// Parse an offset, length or count: a number that is not negative and small
+// Parse an offset, length or count: an integer that is not negative and small
 // enough to be converted. Keeps the value in ret if it is not required and
 // absent.
 static bool ParseSizeProperty(
@@ -1972,7 +1973,8 @@ static bool ParseSizeProperty(
   if (!ParseNumberProperty(ret, err, o, property, true, parent_node)) {
     return false;
   }
-  if (!(*ret >= 0.0 && *ret <= 9007199254740992.0)) { // 2^53
+  if (!(*ret >= 0.0 && *ret <= 9007199254740992.0) || // 2^53
+      *ret != std::floor(*ret)) {
     if (err) {
       (*err) += "'" + property + "' is out of range in " + parent_node + ".\n";
     }
@@ -1981,6 +1983,33 @@ static bool ParseSizeProperty(
   return true;
 }
 
+// Parse an index or a constant: an integer. Keeps the value in ret if it is
+// not required and absent.
+static bool ParseIntProperty(
+    int* ret,
+    std::string* err,
+    const json& o,
+    const std::string& property,
+    const bool required,
+    const std::string& parent_node) {
+  if (!required && o.find(property) == o.end()) {
+    return true;
+  }
+  double value = 0.0;
+  if (!ParseNumberProperty(&value, err, o, property, true, parent_node)) {
+    return false;
+  }
+  if (!(value >= INT_MIN && value <= INT_MAX) || value != std::floor(value)) {
+    if (err) {
+      (*err) += "'" + property + "' is not an integer in " + parent_node +
+          ".\n";
+    }
+    return false;
+  }
+  *ret = static_cast<int>(value);
+  return true;
+}
+
 static bool ParseNumberArrayProperty(
     std::vector<double>* ret,
     std::string* err,
@@ -2123,7 +2152,7 @@ static bool ParseStringIntProperty(
     }
 
     const double value = dictIt.value().get<double>();
-    if (!(value >= INT_MIN && value <= INT_MAX)) {
+    if (!(value >= INT_MIN && value <= INT_MAX) || value != std::floor(value)) {
       if (err) {
         (*err) += "'" + property + "' value is out of range.\n";
       }
@@ -2373,14 +2402,13 @@ static bool ParseTexture(
     const json& o,
     const std::string& basedir) {
   (void)basedir;
-  double sampler = -1.0;
-  double source = -1.0;
-  ParseNumberProperty(&sampler, err, o, "sampler", false);
-
-  ParseNumberProperty(&source, err, o, "source", false);
-
-  texture->sampler = static_cast<int>(sampler);
-  texture->source = static_cast<int>(source);
+  texture->sampler = -1;
+  texture->source = -1;
+  if (!ParseIntProperty(
+          &texture->sampler, err, o, "sampler", false, "Texture") ||
+      !ParseIntProperty(&texture->source, err, o, "source", false, "Texture")) {
+    return false;
+  }
 
   ParseExtensionsProperty(&texture->extensions, err, o);
   ParseExtrasProperty(&texture->extras, o);
@@ -2493,8 +2521,8 @@ static bool ParseBuffer(
 
 static bool
 ParseBufferView(BufferView* bufferView, std::string* err, const json& o) {
-  double buffer = -1.0;
-  if (!ParseNumberProperty(&buffer, err, o, "buffer", true, "BufferView")) {
+  int buffer = -1;
+  if (!ParseIntProperty(&buffer, err, o, "buffer", true, "BufferView")) {
     return false;
   }
 
@@ -2547,7 +2575,7 @@ ParseBufferView(BufferView* bufferView, std::string* err, const json& o) {
 
   ParseStringProperty(&bufferView->name, err, o, "name", false);
 
-  bufferView->buffer = static_cast<int>(buffer);
+  bufferView->buffer = buffer;
   bufferView->byteOffset = static_cast<size_t>(byteOffset);
   bufferView->byteLength = static_cast<size_t>(byteLength);
   bufferView->byteStride = static_cast<size_t>(byteStride);
@@ -2556,9 +2584,8 @@ ParseBufferView(BufferView* bufferView, std::string* err, const json& o) {
 }
 
 static bool ParseAccessor(Accessor* accessor, std::string* err, const json& o) {
-  double bufferView = -1.0;
-  if (!ParseNumberProperty(
-          &bufferView, err, o, "bufferView", true, "Accessor")) {
+  int bufferView = -1;
+  if (!ParseIntProperty(&bufferView, err, o, "bufferView", true, "Accessor")) {
     return false;
   }
 
@@ -2571,8 +2598,8 @@ static bool ParseAccessor(Accessor* accessor, std::string* err, const json& o) {
   bool normalized = false;
   ParseBooleanProperty(&normalized, err, o, "normalized", false, "Accessor");
 
-  double componentType = 0.0;
-  if (!ParseNumberProperty(
+  int componentType = 0;
+  if (!ParseIntProperty(
           &componentType, err, o, "componentType", true, "Accessor")) {
     return false;
   }
@@ -2621,11 +2648,11 @@ static bool ParseAccessor(Accessor* accessor, std::string* err, const json& o) {
       &accessor->maxValues, err, o, "max", false, "Accessor");
 
   accessor->count = static_cast<size_t>(count);
-  accessor->bufferView = static_cast<int>(bufferView);
+  accessor->bufferView = bufferView;
   accessor->byteOffset = static_cast<size_t>(byteOffset);
   accessor->normalized = normalized;
   {
-    int comp = static_cast<int>(componentType);
+    int comp = componentType;
     if (comp >= TINYGLTF_COMPONENT_TYPE_BYTE &&
         comp <= TINYGLTF_COMPONENT_TYPE_DOUBLE) {
       // OK
@@ -2647,19 +2674,17 @@ static bool ParseAccessor(Accessor* accessor, std::string* err, const json& o) {
 
 static bool
 ParsePrimitive(Primitive* primitive, std::string* err, const json& o) {
-  double material = -1.0;
-  ParseNumberProperty(&material, err, o, "material", false);
-  primitive->material = static_cast<int>(material);
-
-  double mode = static_cast<double>(TINYGLTF_MODE_TRIANGLES);
-  ParseNumberProperty(&mode, err, o, "mode", false);
-
-  int primMode = static_cast<int>(mode);
-  primitive->mode = primMode; // Why only triangled were supported ?
-
-  double indices = -1.0;
-  ParseNumberProperty(&indices, err, o, "indices", false);
-  primitive->indices = static_cast<int>(indices);
+  primitive->material = -1;
+  primitive->mode =
+      TINYGLTF_MODE_TRIANGLES; // Why only triangled were supported ?
+  primitive->indices = -1;
+  if (!ParseIntProperty(
+          &primitive->material, err, o, "material", false, "Primitive") ||
+      !ParseIntProperty(&primitive->mode, err, o, "mode", false, "Primitive") ||
+      !ParseIntProperty(
+          &primitive->indices, err, o, "indices", false, "Primitive")) {
+    return false;
+  }
   if (!ParseStringIntProperty(
           &primitive->attributes, err, o, "attributes", true, "Primitive")) {
     return false;
@@ -2810,11 +2835,33 @@ static bool ParseMaterial(Material* material, std::string* err, const json& o) {
 
         for (; itVal != itValEnd; itVal++) {
           Parameter param;
-          if (ParseParameterProperty(
-                  &param, err, values_object, itVal.key(), false)) {
-            material->values[itVal.key()] = param;
+          if (!ParseParameterProperty(
+                  &param,
+                  err,
+                  values_object,
+                  itVal.key(),
+                  itVal.key() != "extras")) {
+            if (itVal.key() == "extras") {
+              continue;
+            }
+            // A material without one of its values would be another material.
+            return false;
+          }
+          const auto index = param.json_double_value.find("index");
+          if (index != param.json_double_value.end() &&
+              index->second != std::floor(index->second)) {
+            if (err) {
+              (*err) += "'index' is not an integer in Material.\n";
+            }
+            return false;
           }
+          material->values[itVal.key()] = param;
+        }
+      } else {
+        if (err) {
+          (*err) += "'pbrMetallicRoughness' is not an object in Material.\n";
         }
+        return false;
       }
     } else if (it.key() == "extensions" || it.key() == "extras") {
       // done later, skip, otherwise poorly parsed contents will be saved in the
@@ -3390,6 +3437,11 @@ bool TinyGLTF::LoadFromString(
 
         model->meshes.push_back(mesh);
       }
+    } else if (rootIt != v.end()) {
+      if (err) {
+        (*err) += "\"meshes\" object is not an array in .gltf\n";
+      }
+      return false;
     }
   }
 
-- 
2.43.0


From 5d5f93878b7676e37d6e0d493a79f32cca60cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 51/65] fix: PLY files with malformed headers were read as
 other points

---
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp |  9 ++++++++
 sumo-api/sumo/threedee/tinyply/tinyply.cpp   | 23 ++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index 4e147f8..45745cd 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -11,6 +11,7 @@ LICENSE file in the root directory of this source tree.
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <set>
 #include <sstream>
 #include <thread>
 #include <vector>
@@ -28,11 +29,19 @@ void checkHeader(const PlyFile& file, istream& ss, const string& filename) {
   ss.seekg(0, ios::end);
   const size_t numBytes = ss.tellg() - start;
   ss.seekg(start);
+  set<string> elementNames;
   for (const PlyElement& element : file.get_elements()) {
+    if (!elementNames.insert(element.name).second) {
+      throw runtime_error("readPoints repeated element in " + filename);
+    }
     if (element.size > numBytes) { // even one byte each is too much
       throw runtime_error("readPoints truncated data in " + filename);
     }
+    set<string> propertyNames;
     for (const PlyProperty& property : element.properties) {
+      if (!propertyNames.insert(property.name).second) {
+        throw runtime_error("readPoints repeated property in " + filename);
+      }
       if (property.propertyType == Type::INVALID ||
           (property.isList && property.listType == Type::INVALID)) {
         throw runtime_error("readPoints unknown property type in " + filename);
diff --git a/sumo-api/sumo/threedee/tinyply/tinyply.cpp b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
index 19dd6db..cccd395 100755
--- a/sumo-api/sumo/threedee/tinyply/tinyply.cpp
+++ b/sumo-api/sumo/threedee/tinyply/tinyply.cpp
@@ -163,7 +163,7 @@ struct PlyFile::PlyFileImpl {
 
   bool parse_header(istream& is);
   void parse_data(istream& is, bool firstPass);
-  void read_header_format(istream& is);
+  bool read_header_format(istream& is);
   void read_header_element(istream& is);
   void read_header_property(istream& is);
   void read_header_text(
@@ -196,6 +196,9 @@ PlyProperty::PlyProperty(istream& is) : isList(false) {
   }
   propertyType = property_type_from_string(type);
   is >> name;
+  if (is.fail() || !(is >> ws).eof()) {
+    throw runtime_error("invalid property in header; file is malformed");
+  }
 }
 
 /////////////////
@@ -204,6 +207,9 @@ PlyProperty::PlyProperty(istream& is) : isList(false) {
 
 PlyElement::PlyElement(istream& is) {
   is >> name >> size;
+  if (is.fail() || !(is >> ws).eof()) {
+    throw runtime_error("invalid element in header; file is malformed");
+  }
 }
 
 ///////////
@@ -235,6 +241,10 @@ template <typename T>
 T ply_read_ascii(istream& is) {
   T data;
   is >> data;
+  // The number has to be the whole word.
+  if (is && !is.eof() && is.peek() != EOF && !isspace(is.peek())) {
+    is.setstate(ios::failbit);
+  }
   return data;
 }
 
@@ -286,14 +296,16 @@ bool PlyFile::PlyFileImpl::parse_header(istream& is) {
     } else if (token == "comment") {
       read_header_text(line, ls, comments, 8);
     } else if (token == "format") {
-      read_header_format(ls);
+      if (!read_header_format(ls)) {
+        return false;
+      }
     } else if (token == "element") {
       read_header_element(ls);
     } else if (token == "property") {
       read_header_property(ls);
     } else if (token == "obj_info") {
       read_header_text(line, ls, objInfo, 9);
-    } else if (token == "end_header") {
+    } else if (token == "end_header" && (ls >> ws).eof()) {
       break;
     } else {
       return false; // unexpected header field
@@ -310,13 +322,16 @@ void PlyFile::PlyFileImpl::read_header_text(
   place.push_back((erase > 0) ? line.erase(0, erase) : line);
 }
 
-void PlyFile::PlyFileImpl::read_header_format(istream& is) {
+bool PlyFile::PlyFileImpl::read_header_format(istream& is) {
   string s;
   (is >> s);
   if (s == "binary_little_endian")
     isBinary = true;
   else if (s == "binary_big_endian")
     isBinary = isBigEndian = true;
+  else if (s != "ascii")
+    return false;
+  return true;
 }
 
 void PlyFile::PlyFileImpl::read_header_element(istream& is) {
-- 
2.43.0


From 53e9c447cc91653ac83c84bbc5cb55648dead64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:00 +0000
Subject: [PATCH 52/65] fix: TIFF files with broken metadata or an invalid near
 plane were read with other depths

---
 sumo-api/sumo/images/RgbdTiff.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 8d53566..9f481a4 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -7,6 +7,8 @@ LICENSE file in the root directory of this source tree.
 
 #include "RgbdTiff.h"
 #include "picojson.h"
+#include <cmath>
+#include <cstring>
 #include <memory>
 #include <stdexcept>
 
@@ -87,9 +89,12 @@ void readMetadata(TIFF* tiff, TiffMetadata* meta) {
   // TODO: review for potential buffer overrun issues
   size_t valLen = strlen(rawValue);
   picojson::value jsonValue;
-  picojson::parse(jsonValue, rawValue, rawValue + valLen);
+  string error;
+  const char* end =
+      picojson::parse(jsonValue, rawValue, rawValue + valLen, &error);
 
-  if (!jsonValue.is<picojson::object>()) {
+  if (!error.empty() || strspn(end, " \t\r\n") != strlen(end) ||
+      !jsonValue.is<picojson::object>()) {
     throw runtime_error("readMetadata: corrupt JSON metadata in TIFF");
   }
   const auto& jsonObj = jsonValue.get<picojson::object>();
@@ -111,6 +116,9 @@ void readMetadata(TIFF* tiff, TiffMetadata* meta) {
     // double instead of float32, and then we can change this to double and
     // avoid this cast
     meta->depthNearPlane = static_cast<float>(near);
+    if (!(meta->depthNearPlane > 0 && std::isfinite(meta->depthNearPlane))) {
+      throw runtime_error("readMetadata: invalid near plane in TIFF");
+    }
   }
 }
 
-- 
2.43.0


From c9d773b79fc038fc33808d21657c7372765e4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 53/65] fix: the size of a glTF image that was not found was
 not initialized

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 834ed3b..4bdb886 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -487,6 +487,7 @@ struct Image {
   Value extras;
 
   Image() {
+    width = height = component = 0; // not loaded
     bufferView = -1;
   }
 };
-- 
2.43.0


From 55f7845f469694def9dfefc597ac87a8f3905f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 54/65] fix: a scene file with an unknown encoding failed with
 LookupError

---
 sumo-api/sumo/semantic/project_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index c63d115..6db6b44 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -137,7 +137,7 @@ class ProjectScene(object):
         # Read xml from file
         try:
             xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
-        except ET.ParseError as e:
+        except (ET.ParseError, LookupError) as e:  # also unknown encodings
             raise ValueError("Could not parse project xml: " + str(e))
 
         # parse xml tree
-- 
2.43.0


From 484d8f6463303605febe0856120930774c644c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 55/65] fix: failing writes of images are reported by
 GltfModel::saveImages

---
 sumo-api/sumo/threedee/GltfModel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index cf2270c..42518ed 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -6,10 +6,12 @@ LICENSE file in the root directory of this source tree.
 */
 
 #include <algorithm>
+#include <fstream>
 #include <iostream>
 #include <limits>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include "GltfModel.h"
 #include "TexturedMesh.h"
@@ -584,9 +586,19 @@ void GltfModel::saveImages(const string& folder) const {
     if (image.uri.empty()) {
       throw invalid_argument("GltfModel::saveImages: found empty image URI");
     }
+    // cv::imwrite does not report a failing write, hence encode in memory
     bool written = false;
     try {
-      written = cv::imwrite(folder + "/" + image.uri, bgr);
+      const size_t dot = image.uri.rfind('.');
+      vector<unsigned char> buffer;
+      if (dot != string::npos &&
+          cv::imencode(image.uri.substr(dot), bgr, buffer)) {
+        ofstream file(folder + "/" + image.uri, ios::binary);
+        file.write(
+            reinterpret_cast<const char*>(buffer.data()), buffer.size());
+        file.close();
+        written = static_cast<bool>(file);
+      }
     } catch (cv::Exception& e) {
       throw runtime_error(
           "GltfModel::saveImages: OpenCV could not write " + image.uri +
-- 
2.43.0


From 0198cae69fb72931246e9211cb345dbe074e4d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:24 +0000
Subject: [PATCH 56/65] fix: failing writes are reported by VoxelGrid.save and
 do not crash it

---
 sumo-api/sumo/threedee/voxel_grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index a781b5d..5513fe9 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -176,12 +176,17 @@ class VoxelGrid(object):
         IOError - if file cannot be written.
         """
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
-            with h5py.File(filename, "w") as f:
+            # made in memory, as HDF5 does not report all failing writes
+            with h5py.File(filename, "w", driver="core", backing_store=False) as f:
                 f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
                 f.attrs["scale"] = self._scale
                 f.attrs["min_corner"] = self._min_corner
                 f.attrs["size_x"] = self._size_x
                 f.attrs["size_y"] = self._size_y
+                f.flush()
+                file_image = f.id.get_file_image()
+            with open(filename, "wb") as f:
+                f.write(file_image)
         except Exception as e:
             raise IOError("voxel file write failed. Err: " + str(e))
 
-- 
2.43.0


From ff0e570c5185ece925001bc518f0b49f704ff0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 57/65] fix: damaged archives were kept for ever by the
 download tool

---
 tools/download_sumo_datasets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index c99fee8..aae593d 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -24,12 +24,12 @@ Note: This python script depends on Python 3.3+  and 'requests' package. If your
 """
 
 import argparse
+import errno
 import glob
 import logging
 import os
 import shutil
 import zipfile
-import zlib
 from functools import partial
 from multiprocessing import Pool
 
@@ -138,13 +138,16 @@ def unzip_one(args, file):
     except KeyboardInterrupt:
         raise
 
-    except (zipfile.BadZipFile, zlib.error, EOFError) as e:
-        # the zip file is damaged, so it has to be downloaded again
+    except MemoryError as e:
         logging.error(e)
-        os.remove(zip_file_path)
 
     except Exception as e:
         logging.error(e)
+        # Damaged zip files raise many kinds of errors.  Only an error of the
+        # file system says nothing about the zip file, after any other (also
+        # after seeking to an invalid position) it has to be downloaded again.
+        if not isinstance(e, OSError) or e.errno in (None, errno.EINVAL):
+            os.remove(zip_file_path)
 
 
 def download_zips_in_parallel(args):
-- 
2.43.0


From 458763f8afcf392fced108ff18dce3d532e00d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 58/65] fix: restore the line endings of glb_converter.pyx that
 8efd6ac changed

---
 sumo-api/sumo/threedee/glb_converter.pyx | 442 +++++++++++------------
 1 file changed, 221 insertions(+), 221 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index b41a0e7..f2d8aa5 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,221 +1,221 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import base64
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Declared length of the data, None if unknown
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-
-        Exceptions:
-        IOError - if the data is shorter than declared
-        """
-        if uri.startswith("data:"):
-            _, _, data = uri.partition(";base64,")
-            buf = bytearray(base64.b64decode(data))
-        else:
-            with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-                buf = bytearray(f.read())
-
-        if length is not None and len(buf) < length:
-            raise IOError("{} has {} bytes, expected {}".format(
-                uri[:80], len(buf), length))
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    # Pack all buffers in the single GLB buffer body
-    buffer_map = {}
-    for i, buf in enumerate(gltf_json.get("buffers", [])):
-        offset, _ = body_encoder.add_to_body(
-            buf["uri"], buf.get("byteLength"))
-        buffer_map[i] = offset
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    buffer_views = gltf_json.setdefault("bufferViews", [])
-    for bufview in buffer_views:
-        bufview["byteOffset"] \
-            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    for image in gltf_json.get("images", []):
-        if "bufferView" in image:
-            continue  # already in one of the buffers
-        uri = image["uri"]
-        if not uri:
-            raise ValueError("GLTF image has empty URI.")
-        offset, length = body_encoder.add_to_body(uri, None)
-
-        image["bufferView"] = len(buffer_views)
-        buffer_views.append({
-            "buffer": 0,
-            "byteOffset": offset,
-            "byteLength": length
-        })
-
-        fileType, fileEncoding = mimetypes.guess_type(uri)
-        image["mimeType"] = fileType
-        del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    # A GLB has at most one buffer, without uri: its body
-    gltf_json["buffers"] = [{"byteLength": body_encoder.body_length}] \
-        if body_encoder.body_length else []
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import base64
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Declared length of the data, None if unknown
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+
+        Exceptions:
+        IOError - if the data is shorter than declared
+        """
+        if uri.startswith("data:"):
+            _, _, data = uri.partition(";base64,")
+            buf = bytearray(base64.b64decode(data))
+        else:
+            with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+                buf = bytearray(f.read())
+
+        if length is not None and len(buf) < length:
+            raise IOError("{} has {} bytes, expected {}".format(
+                uri[:80], len(buf), length))
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    # Pack all buffers in the single GLB buffer body
+    buffer_map = {}
+    for i, buf in enumerate(gltf_json.get("buffers", [])):
+        offset, _ = body_encoder.add_to_body(
+            buf["uri"], buf.get("byteLength"))
+        buffer_map[i] = offset
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    buffer_views = gltf_json.setdefault("bufferViews", [])
+    for bufview in buffer_views:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    for image in gltf_json.get("images", []):
+        if "bufferView" in image:
+            continue  # already in one of the buffers
+        uri = image["uri"]
+        if not uri:
+            raise ValueError("GLTF image has empty URI.")
+        offset, length = body_encoder.add_to_body(uri, None)
+
+        image["bufferView"] = len(buffer_views)
+        buffer_views.append({
+            "buffer": 0,
+            "byteOffset": offset,
+            "byteLength": length
+        })
+
+        fileType, fileEncoding = mimetypes.guess_type(uri)
+        image["mimeType"] = fileType
+        del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    # A GLB has at most one buffer, without uri: its body
+    gltf_json["buffers"] = [{"byteLength": body_encoder.body_length}] \
+        if body_encoder.body_length else []
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From 19ebb72e7fe3a640f6c3f2ea1fe2b9841c97e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:33 +0000
Subject: [PATCH 59/65] fix: record extracted archives so that every name is
 recognised again

An archive whose name holds .zip or .cache before its suffix was recorded under
a name that stood for another archive, so it was fetched again in every run.
---
 tools/download_sumo_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index aae593d..0b677e6 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -129,7 +129,7 @@ def unzip_one(args, file):
         os.remove(zip_file_path)
         with open(
             os.path.join(
-                args.destination_dir, ".cache", file.replace(".zip", ".cache")
+                args.destination_dir, ".cache", os.path.splitext(file)[0] + ".cache"
             ),
             "w",
         ) as f:
@@ -259,7 +259,7 @@ def get_zip_file_count(args):
         for x in glob.glob(os.path.join(glob.escape(args.destination_dir), "*.zip"))
     ]
     extracted_zip_files = [
-        os.path.basename(x.replace(".cache", ".zip"))
+        os.path.splitext(os.path.basename(x))[0] + ".zip"
         for x in glob.glob(os.path.join(glob.escape(args.cache_folder), "*.cache"))
     ]
     remaining_zip_files_to_be_downloaded = remove_existing_files(
-- 
2.43.0


From 25625a38077bddd5aa12f4561a00fc7d41e91b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:46 +0000
Subject: [PATCH 60/65] fix: materials that differ in a boolean such as
 doubleSided compared as the same

---
 sumo-api/sumo/threedee/Mesh.cpp              | 5 +++--
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index 2213fe2..2c64190 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -189,13 +189,14 @@ void Mesh::replaceGeometry(const Mesh& mesh2) {
 }
 
 /// Operator == for Parameter
-// Note that number_value and bool_value are not initialized to known values,
-// so they are only compared when they are the value of the parameter.
+// Note that number_value is not initialized to a known value, so it is only
+// compared when it is the value of the parameter.
 static bool parametersEqual(
     const tinygltf::Parameter& a,
     const tinygltf::Parameter& b) {
   return
     a.has_number_value == b.has_number_value &&
+    a.bool_value == b.bool_value &&
     a.string_value == b.string_value &&
     a.json_double_value == b.json_double_value &&
     a.number_array == b.number_array &&
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 4bdb886..74295a6 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -363,7 +363,7 @@ TINYGLTF_VALUE_GET(Value::Object, object_value_)
 using ColorValue = std::array<double, 4>;
 
 struct Parameter {
-  bool bool_value;
+  bool bool_value = false;
   bool has_number_value = false;
   std::string string_value;
   std::vector<double> number_array;
-- 
2.43.0


From c06d323b9cca92581bebd1c470e519374eef7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 61/65] fix: VoxelGrid mixed up voxels of grids with more than
 2^53 cells

---
 sumo-api/sumo/threedee/voxel_grid.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 5513fe9..061f1ce 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -128,10 +128,18 @@ class VoxelGrid(object):
 
         # Check if voxel space dimensions have increased
         # (each dimension on its own; python ints do not overflow when multiplied)
-        (new_size_x, new_size_y, _) = np.amax(new_voxels_3d, 0) + 1
+        (new_size_x, new_size_y, size_z) = np.amax(new_voxels_3d, 0).astype('int64') + 1
         self._size_x = max(int(self._size_x), int(new_size_x))
         self._size_y = max(int(self._size_y), int(new_size_y))
 
+        # the 1D index of a voxel is exact up to 2^53; merge in 3D if it can get larger
+        if self._voxels_3d.shape[0] > 0:
+            size_z = max(size_z, np.amax(self._voxels_3d[:, 2]) + 1)
+        if self._size_x * self._size_y * int(size_z) > 2**53:
+            all_voxels_zyx = np.vstack([self._voxels_3d, new_voxels_3d])[:, ::-1]
+            self._voxels_3d = np.unique(all_voxels_zyx, axis=0)[:, ::-1]
+            return
+
         # convert the voxel_index to 1D and merge
         old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
         new_voxels_1d = _linearize_voxels(new_voxels_3d, self._size_x, self._size_y)
-- 
2.43.0


From 12ad4fdded6d398e5212ceb3e13069e07572d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:18 +0000
Subject: [PATCH 62/65] fix: re-posed scenes shared nested settings with the
 original

---
 sumo-api/sumo/semantic/project_scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 6db6b44..4ae48db 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -9,6 +9,7 @@ LICENSE file in the root directory of this source tree.
 Data class: Project scene file representation.
 """
 
+from copy import deepcopy
 import os
 import xml.etree.ElementTree as ET
 from sumo.semantic.project_object_dict import ProjectObjectDict
@@ -61,7 +62,7 @@ class ProjectScene(object):
         for (k, PO) in self.elements.items():
             new_elements[k] = PO.transform_pose(nTo)
         return ProjectScene(project_type=self.project_type, elements=new_elements,
-            settings=dict(self.settings))
+            settings=deepcopy(self.settings))
 
     def save(self, path, project_name):
         """
-- 
2.43.0


From d3ed4e2e3ac3aaeae1415543acdfa08b61ad22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:38 +0000
Subject: [PATCH 63/65] fix: data added to a loaded model were not aligned as
 glTF requires

---
 sumo-api/sumo/threedee/GltfModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 42518ed..4781a3f 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -50,8 +50,8 @@ size_t GltfModel::reallyAddToBuffer(
   assert(!this->buffers.empty());
   vector<unsigned char>& bufferData = this->buffers[0].data;
 
-  // Push data on buffer
-  size_t byteOffset = bufferData.size();
+  // Push data on buffer, aligned to 4 bytes
+  size_t byteOffset = (bufferData.size() + 3) / 4 * 4;
   bufferData.resize(byteOffset + numBytes);
   memcpy(bufferData.data() + byteOffset, rawData, numBytes);
   return byteOffset;
-- 
2.43.0


From 281229b662ea477519f6bf17394ed8ae49cc167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:38 +0000
Subject: [PATCH 64/65] fix: a GLB file with a picture in a file of its own was
 rejected

---
 sumo-api/sumo/threedee/GltfModel.cpp | 7 ++-----
 sumo-api/sumo/threedee/GltfModel.h   | 4 ++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 4781a3f..1c8a68b 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -564,12 +564,9 @@ vector<Mesh*> GltfModel::getPolymorphicPrimitiveMeshes() const {
 void GltfModel::setURIs(const string& extension) {
   for (size_t i = 0; i < this->images.size(); i++) {
     auto& image = this->images[i];
-    if (!image.uri.empty()) {
-      throw invalid_argument(
-          "GltfModel::setURIs: expected empty URI, but got ''" + image.uri +
-          "'.");
+    if (image.uri.empty()) { // pictures in files of their own have one
+      image.uri = to_string(i) + extension;
     }
-    image.uri = to_string(i) + extension;
   }
 }
 
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 3751480..e21c14f 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -132,8 +132,8 @@ class GltfModel : public tinygltf::Model {
   std::vector<Mesh*> getPolymorphicPrimitiveMeshes() const;
 
   /**
-   * Set URI to sequentially numbered relative image names with given extension.
-   * Assumes uris are empty, will throw invalid_argument exception if not.
+   * Set empty URIs to sequentially numbered relative image names with given
+   * extension.
    */
   void setURIs(const std::string& extension = ".png");
 
-- 
2.43.0


From c076aa2b5e4a8820ae0148c885d1c257e9163e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:38 +0000
Subject: [PATCH 65/65] fix: saving as glTF lost pictures whose names collide,
 are not png or lie in a folder

---
 sumo-api/sumo/threedee/GltfModel.cpp  | 20 ++++++++++++++++++++
 sumo-api/sumo/threedee/GltfModel.h    |  7 +++++++
 sumo-api/sumo/threedee/gltf_model.pxd |  1 +
 sumo-api/sumo/threedee/gltf_model.pyx |  7 +++++--
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 1c8a68b..f709f2f 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -10,6 +10,7 @@ LICENSE file in the root directory of this source tree.
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -570,6 +571,25 @@ void GltfModel::setURIs(const string& extension) {
   }
 }
 
+void GltfModel::setPngURIs() {
+  set<string> used;
+  vector<tinygltf::Image*> others;
+  for (auto& image : this->images) {
+    const string& uri = image.uri;
+    const bool isPng = uri.size() > 4 && uri.find('/') == string::npos &&
+        uri.compare(uri.size() - 4, 4, ".png") == 0;
+    if (!isPng || !used.insert(uri).second) {
+      others.push_back(&image);
+    }
+  }
+  size_t i = 0;
+  for (tinygltf::Image* image : others) {
+    do {
+      image->uri = to_string(i++) + ".png";
+    } while (!used.insert(image->uri).second);
+  }
+}
+
 void GltfModel::saveImages(const string& folder) const {
   for (size_t i = 0; i < this->images.size(); i++) {
     const auto& image = this->images[i];
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index e21c14f..fae3802 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -137,6 +137,13 @@ class GltfModel : public tinygltf::Model {
    */
   void setURIs(const std::string& extension = ".png");
 
+  /**
+   * Give a new name to every image that could not be saved under its URI
+   * without loss: only png is lossless, folders might not exist, and an image
+   * would replace another one with the same URI.
+   */
+  void setPngURIs();
+
   /**
    * Save all images to given folder, using opencv.
    */
diff --git a/sumo-api/sumo/threedee/gltf_model.pxd b/sumo-api/sumo/threedee/gltf_model.pxd
index b73a101..1904f62 100644
--- a/sumo-api/sumo/threedee/gltf_model.pxd
+++ b/sumo-api/sumo/threedee/gltf_model.pxd
@@ -35,6 +35,7 @@ cdef extern from "sumo/threedee/GltfModel.h" namespace "sumo":
                         string& baseDir) except +
     size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness) except +
     void setURIs(const string& extension) except +
+    void setPngURIs() except +
     void saveImages(const string& folder) except +
 
 # Python wrapper classes:
diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 1e35be8..e511d53 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -235,10 +235,13 @@ cdef class GltfModel:
         if not os.path.isdir(folder):
             raise ValueError("GltfModel.save_as_gltf: expected a directory")
         gltf_path = os.path.join(folder, root + '.gltf')
-        TinyGLTF().write_gltf_scene_to_file(self, gltf_path)
+        # Copied because names of images may have to change
+        cdef GltfModel copy = self.deepcopy()
+        copy.c_ptr.setPngURIs()
+        TinyGLTF().write_gltf_scene_to_file(copy, gltf_path)
         if not os.path.isfile(gltf_path):
             raise IOError("GLTF conversion failed.")
-        self.c_ptr.saveImages(folder.encode('UTF-8'))
+        copy.c_ptr.saveImages(folder.encode('UTF-8'))
         return gltf_path
 
     def save_as_glb(self, unicode path):
-- 
2.43.0

