From 3f4f99e33e31114bf5a32125d6de470ac3e9218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 01/46] fix: reject unknown strain modes instead of storing
 them

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..8eebc5e 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -74,7 +74,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val in ("crystal", "standard"):
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
-- 
2.43.0


From 6dd0dbbe36cf647f7c8a9bf03b6171ce719aaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 02/46] fix: make inhomogeneous strains usable and consistent
 with HStrain's crystal frame

---
 czone/transform/strain.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 8eebc5e..49f5da3 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -181,21 +181,23 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        self.fun_kwargs = kwargs
+        self.mode = mode
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
-
-        self.mode = mode
+            self.strain_fun = lambda x, **kwargs: x
 
         if origin != "generator":
             self.origin = origin
+            self.origin_type = "global"
         else:
             super().__init__()
+            self.origin_type = "generator"
 
         self._bases = None
-        self.fun_kwargs = kwargs
 
     ##############
     # Properties #
@@ -221,8 +223,10 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
-            test_arr = fun(ref_arr, **self.fun_kwargs)
+            ref_arr = np.random.rand(100, 3)
+            # strain functions are passed the bases in crystal mode
+            extra = {"basis": np.eye(3)} if self.mode == "crystal" else {}
+            test_arr = fun(ref_arr, **extra, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
             raise ValueError(
@@ -241,13 +245,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From 8914821e5fa57f296ee6f725d9c8e644dbecbba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 03/46] fix: accept an explicit array origin for strain fields

---
 czone/transform/strain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 49f5da3..dac85b0 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -107,7 +107,7 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
             self.origin_type = "global"
         else:
@@ -190,7 +190,7 @@ class IStrain(BaseStrain):
             # apply no strain
             self.strain_fun = lambda x, **kwargs: x
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
             self.origin_type = "global"
         else:
-- 
2.43.0


From c5b3fdbb22c1133391ed49300c45a57566a9599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 04/46] fix: let Reflection transform algebraic surfaces
 through MatrixTransform

---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From 3f6ea539fcf5373a0fd62f8d6f23937282b6c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 05/46] fix: unpack the rotation returned by align_vectors in
 rot_align

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..9ba586c 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -482,7 +482,7 @@ def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
         np.ndarray: 3x3 rotation matrix
     """
 
-    return scRotation.align_vectors(vt, v).as_matrix()
+    return scRotation.align_vectors(vt, v)[0].as_matrix()
 
 
 def rot_zxz(alpha: float,
-- 
2.43.0


From 085d831c9fd9ec645cae25f1874e6078d8cff767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 06/46] fix: apply extrinsic zxz angles in the documented order

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 9ba586c..2fdeb4f 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -512,7 +512,7 @@ def rot_zxz(alpha: float,
         return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                      degrees=False).as_matrix()
     elif convention == "extrinsic":
-        return scRotation.from_euler("zxz", [gamma, alpha, beta],
+        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                      degrees=False).as_matrix()
     else:
         raise (ValueError("Invalid argument for convention."))
-- 
2.43.0


From c8317d2d0030bba4220122d2e9b4acd40982380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 07/46] fix: return the open-boundary distance function when no
 axis is periodic

---
 czone/util/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..e5fe3b1 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -176,6 +176,8 @@ def get_sdist_fun(dims=None, px=False, py=False, pz=False):
         def sdist(A, B):
             return np.sum((A - B)**2.0, axis=1)
 
+        return sdist
+
     # grab relevant dimensions
     cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
     sdims = np.array(dims)[cols]
-- 
2.43.0


From ed6c6ee7290b797aba915e2d9c05341c1d4a85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 08/46] fix: leave the caller's coordinates unchanged in
 calc_rdf

---
 czone/util/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index e5fe3b1..a452f69 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -210,7 +210,7 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
     dims = np.max(coords, axis=0)
-- 
2.43.0


From 117e78df2e23e41d553e7483d281743675f8baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 09/46] fix: pair each RDF voxel with its own neighbors

---
 czone/util/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index a452f69..9efcd83 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -239,7 +239,7 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
     for i in range(np.prod(N)):
         cur_parts = coords[parts[i], :][:, :, None]
 
-        for n in nn[box_idx[i]]:
+        for n in nn[i]:
             neighbor_parts = (coords[parts[n], :].T)[None, :, :]
             dist = np.sqrt(f_sdist(cur_parts, neighbor_parts))
 
-- 
2.43.0


From 936d13a9b312767a839147c85365bb78fb472f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 10/46] fix: rebuild hull and triangulation when the points of
 a Volume change

---
 czone/volume/volume.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..8499c69 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -176,7 +176,8 @@ class Volume(BaseVolume):
     @points.setter
     def points(self, points):
         try:
-            self._points = np.array([])  #clear points
+            self._points = None  #clear points
+            self._hull = None
             self.addPoints(points)
         except AssertionError:
             raise ValueError("Check shape of input array.")
@@ -260,7 +261,7 @@ class Volume(BaseVolume):
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
+                self._points = np.expand_dims(points, axis=0)
         else:
             if len(points.shape) == 1:  #check for single point
                 points = np.expand_dims(points, axis=0)
@@ -270,6 +271,7 @@ class Volume(BaseVolume):
         #if hull created, update points; else, create hull
         try:
             self._hull.add_points(points)
+            self._tri = Delaunay(self.hull.points[self.hull.vertices])
         except AttributeError:
             self.createHull()
 
-- 
2.43.0


From 29becdc9a12ef894e8fb2e198636f9a955bf3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 11/46] fix: return only the vertices from
 Volume.get_bounding_box for plane regions

---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 8499c69..fd3afb0 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -338,7 +338,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0:
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From cddd013f54ee15c42547385f37a9f50e6de9e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 12/46] fix: allow interior points outside the positive octant
 in get_bounding_box

---
 czone/volume/algebraic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..7db7f2d 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -409,7 +409,8 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d,
+                  bounds=[(None, None)] * 3 + [(0, None)])
     if (res.status == 0):
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
-- 
2.43.0


From 0d73598462b78514cc4b6a3d63ae4c6fb852802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 13/46] fix: honour tolerance, missing generators and
 documented kwargs in Volume.from_volume

---
 czone/volume/volume.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index fd3afb0..cda086d 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -367,13 +367,16 @@ class Volume(BaseVolume):
                     - generator=BaseGenerator to replace generator associated with volume.
                     - Any kwargs accepted in creation of Volume object.
         """
-        new_volume = Volume(points=self.points,
-                            alg_objects=self.alg_objects,
-                            priority=self.priority)
-        if "generator" in kwargs.keys():
-            new_volume.add_generator(kwargs["generator"])
-        else:
-            new_volume.add_generator(self.generator)
+        params = {
+            "points": self.points,
+            "alg_objects": self.alg_objects,
+            "generator": self.generator,
+            "priority": self.priority,
+            "tolerance": self.tolerance,
+        }
+        params.update(
+            {k: v for k, v in kwargs.items() if k != "transformation"})
+        new_volume = Volume(**params)
 
         if "transformation" in kwargs.keys():
             for t in kwargs["transformation"]:
-- 
2.43.0


From 29d4de1ec080ac86fdd7314df2bf70a3478867cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 14/46] fix: generate amorphous blocks with the requested
 density

---
 czone/generator/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..ada77a2 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -417,7 +417,8 @@ class AmorphousGenerator(BaseGenerator):
             return self.old_result
         else:
             coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
+                self.density)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 484299bcf6ed820147bf219b6b836ded7de1cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 15/46] fix: place amorphous blocks inside the requested region

---
 czone/generator/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index ada77a2..f4418ef 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -419,6 +419,7 @@ class AmorphousGenerator(BaseGenerator):
             coords = gen_p_substrate(
                 np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
                 self.density)
+            coords = coords + np.min(bbox, axis=0)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 6624e60c7615f072840a4e961b6773851378bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 16/46] fix: store lattice vectors as voxel columns, as tiling
 and strain expect

---
 czone/generator/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index f4418ef..262b567 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -121,9 +121,9 @@ class Generator(BaseGenerator):
 
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
-- 
2.43.0


From e70a7f4ddd832ab35c1d44db23ce829c33b5f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 17/46] fix: let volumes holding amorphous or null generators
 be transformed

---
 czone/generator/generator.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 262b567..6daaf91 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -423,6 +423,27 @@ class AmorphousGenerator(BaseGenerator):
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
+    def transform(self, transformation: BaseTransform):
+        """Transform origin and previous generation, if either exists.
+
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+        if transformation.basis_only:
+            return
+
+        if self.origin is not None:
+            new_origin = transformation.applyTransformation(
+                np.reshape(self.origin, (1, 3)))
+            self.origin = np.squeeze(new_origin)
+
+        if self.old_result is not None:
+            coords, species = self.old_result
+            self._old_result = (transformation.applyTransformation(coords),
+                                species)
+
 
 class NullGenerator(BaseGenerator):
     """Generator object for empty space.
@@ -438,4 +459,8 @@ class NullGenerator(BaseGenerator):
         pass
 
     def supply_atoms(self, bbox):
-        return np.empty((0,3)), np.empty((0,))
\ No newline at end of file
+        return np.empty((0,3)), np.empty((0,))
+
+    def transform(self, transformation: BaseTransform):
+        """Empty space is invariant under every transformation."""
+        pass
-- 
2.43.0


From 2c5f84f55174949b81257c1021b938153ae2c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 18/46] fix: ignore generator origins for null generators

---
 czone/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index cda086d..456ca9a 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -7,7 +7,7 @@ from ase import Atoms
 from ase.io import write as ase_write
 from scipy.spatial import ConvexHull, Delaunay
 
-from ..generator import AmorphousGenerator, BaseGenerator
+from ..generator import AmorphousGenerator, BaseGenerator, NullGenerator
 from ..transform import BaseTransform
 from .algebraic import BaseAlgebraic, Plane, Sphere, Cylinder
 from .algebraic import get_bounding_box as get_bounding_box_planes
@@ -229,7 +229,7 @@ class Volume(BaseVolume):
 
         new_generator = copy.deepcopy(generator)
 
-        if not isinstance(generator, AmorphousGenerator):
+        if not isinstance(generator, (AmorphousGenerator, NullGenerator)):
             if not origin is None:
                 new_generator.voxel.origin = origin
 
-- 
2.43.0


From c271b46d441f4aeac6bfcb7f76b6e156ed07f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 19/46] fix: use the plane normal when scanning wurtzite fault
 planes

---
 czone/prefab/prefab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..fa413ba 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -390,7 +390,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
-- 
2.43.0


From 6efe8e54b147cbf8e059f1c3d447825bc5ecb42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 20/46] fix: scan defect planes around the center of spherical
 volumes

---
 czone/prefab/prefab.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index fa413ba..6ac759c 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -159,8 +159,8 @@ class fccMixedTwinSF(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec      
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -400,8 +400,8 @@ class wurtziteStackingFault(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec            
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From 2c49f80b3ea90eb6923b8324c27f1c6c5893f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 21/46] fix: let Plane.project_point project a single point

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 7db7f2d..0153581 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -220,7 +220,7 @@ class Plane(BaseAlgebraic):
         Returns:
             Projected point lying on surface of Plane.
         """
-        return point - self.sdist_from_plane(point)[:,None] * self.normal[None,:]
+        return point - np.multiply.outer(self.sdist_from_plane(point), self.normal)
 
 
 class Cylinder(BaseAlgebraic):
-- 
2.43.0


From ee5f956e5ea9332547f47c167432f59a07e8a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 22/46] fix: bring surfaces into contact in s2s_alignment
 without altering its inputs

---
 czone/transform/transform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 2fdeb4f..aa33264 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -546,14 +546,12 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
     M_point_r = R_t.applyTransformation(M_point)
 
-    proj_point = T_plane.project_point(M_point)
+    proj_point = T_plane.project_point(M_point_r)
     plane_shift = T_plane.project_point(T_point) - proj_point
 
-    ortho_shift = 1.0 * T_plane.dist_from_plane(M_plane.point) * T_plane.normal
+    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
     T_t = Translation(shift=ortho_shift + plane_shift)
 
     return MultiTransform(transforms=[R_t, T_t])
-- 
2.43.0


From 0f004b653786808b1cd8eb155bdda892fcd2ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 23/46] fix: write scenes for every file format and keep
 supplied Debye-Waller factors

---
 czone/scene/scene.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..84ac182 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -179,9 +179,6 @@ class Scene():
                 dwf = set(self.all_species)
                 dw_default = (0.1**2.0) * 8 * np.pi**2.0
                 dwf = {str(Symbols([x])): dw_default for x in dwf}
-                ase_write(filename=fname,
-                          images=self.ase_atoms,
-                          debye_waller_factors=dwf,
-                          **kwargs)
-        else:
-            ase_write(filename=fname, images=self.ase_atoms, **kwargs)
+                kwargs.setdefault("debye_waller_factors", dwf)
+
+        ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From 6d5060511465251735bbcaee6748b325a1e5acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 24/46] fix: keep the tracked origin atom when other atoms are
 removed

---
 czone/molecule/molecule.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..98354af 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -112,9 +112,16 @@ class BaseMolecule(ABC):
             raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
             # self._origin_idx = new_origin_idx # TEST
 
+        old_idx = np.arange(self.atoms.shape[0])
+        kept_idx = np.delete(old_idx, indices)
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
+        if new_origin_idx is not None:
+            self.set_origin(idx=np.searchsorted(kept_idx, old_idx[new_origin_idx]))
+        elif self._origin_tracking:
+            self.set_origin(idx=np.searchsorted(kept_idx, old_idx[self._origin_idx]))
+
     @property
     def ase_atoms(self):
         """Collection of atoms in molecule as ASE Atoms object."""
-- 
2.43.0


From 4925c54bc1ab7dd2d2436e0fc33cb38a0ba0e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 25/46] fix: recognise negative indices of the origin atom in
 remove_atoms

---
 czone/molecule/molecule.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 98354af..d4e6b24 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -98,29 +98,34 @@ class BaseMolecule(ABC):
             indices: iterable(int), set of indices to remove 
             new_origin_idx: int, original index number of atom to set as new origin
         """
+        # refer to every atom by its non-negative index
+        n_atoms = self.atoms.shape[0]
+        indices = np.arange(n_atoms)[list(indices)]
+
         if new_origin_idx is not None:
             if not np.issubdtype(type(new_origin_idx), np.integer):
                 raise TypeError("new_origin_idx must be an int")
             
             if np.abs(new_origin_idx) >= self.atoms.shape[0]:
                 raise IndexError(f"Supplied new_origin_idx {new_origin_idx} is out of bounds for {self.atoms.shape[0]} atom molecule")
+
+            new_origin_idx = new_origin_idx % n_atoms
             
         if new_origin_idx in indices:
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
-        if self._origin_tracking and self._origin_idx in indices:
+        if self._origin_tracking and self._origin_idx % n_atoms in indices:
             raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
             # self._origin_idx = new_origin_idx # TEST
 
-        old_idx = np.arange(self.atoms.shape[0])
-        kept_idx = np.delete(old_idx, indices)
+        kept_idx = np.delete(np.arange(n_atoms), indices)
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
         if new_origin_idx is not None:
-            self.set_origin(idx=np.searchsorted(kept_idx, old_idx[new_origin_idx]))
+            self.set_origin(idx=np.searchsorted(kept_idx, new_origin_idx))
         elif self._origin_tracking:
-            self.set_origin(idx=np.searchsorted(kept_idx, old_idx[self._origin_idx]))
+            self.set_origin(idx=np.searchsorted(kept_idx, self._origin_idx % n_atoms))
 
     @property
     def ase_atoms(self):
-- 
2.43.0


From 839fa03e1fc28aea1345bea8cdd2289889fa758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 26/46] fix: reject split counts that cannot fit in
 get_N_splits

---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..66d9cbc 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m - 1 < (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From 4b826b14e662bcaceaf9b61eabd2a02d52574df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 27/46] fix: keep vangle defined for collinear vectors

---
 czone/util/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index 66d9cbc..dd28ef3 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -64,4 +64,5 @@ def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
     Returns:
         float: angle in radians
     """
-    return np.arccos(np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2)))
\ No newline at end of file
+    cos = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
+    return np.arccos(np.clip(cos, -1.0, 1.0))
\ No newline at end of file
-- 
2.43.0


From de0851863a195e861dac1c91d7de6c227437ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 28/46] fix: keep rot_vtv defined for collinear vectors

---
 czone/transform/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index aa33264..d291ef2 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -453,12 +453,12 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     """
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
-    eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
+    eps = np.sqrt(np.finfo(float).eps)  #tolerance for collinearity check
+    theta = np.arctan2(np.linalg.norm(np.cross(v, vt)), np.dot(v, vt))
     if (theta < eps):
         return np.eye(3)
     elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
+        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
         rot_axis = np.cross(v, e_i).astype(float)
     else:
         rot_axis = np.cross(v, vt).astype(float)
-- 
2.43.0


From 76ee383b17a314ec6e0ac190517ade12793316a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 29/46] fix: transform plane normals with the inverse transpose

---
 czone/transform/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index d291ef2..93ab2b9 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -234,7 +234,8 @@ class MatrixTransform(BaseTransform):
             else:
                 alg_object.point = np.dot(self.matrix, (alg_object.point).T).T
 
-            alg_object.normal = np.dot(self.matrix, (alg_object.normal).T).T
+            alg_object.normal = np.dot(
+                np.linalg.inv(self.matrix).T, (alg_object.normal).T).T
 
         if isinstance(alg_object, Cylinder):
             if not (self.origin is None):
-- 
2.43.0


From c6d2d03e61379100ff03047136e3b850a70174f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 30/46] fix: snap planes to the lattice the strained generator
 actually supplies

---
 czone/volume/algebraic.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 0153581..11e77c2 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -445,16 +445,19 @@ def snap_plane_near_point(point: np.ndarray,
 
 
     # check if generator has a strain field
-    if generator.strain_field is None:
-        # get point coordinates in generator coordinate system
-        point_fcoord = np.array(np.linalg.solve(generator.voxel.sbases, point))
-    else:
+    bases = generator.voxel.sbases
+    if generator.strain_field is not None:
         assert ( isinstance(
             generator.strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
 
+        H = generator.strain_field.matrix
         if generator.strain_field.mode == "crystal":
-            H = generator.strain_field.matrix
-            point_fcoord = np.array(np.linalg.solve(H @ generator.voxel.sbases, point))
+            bases = bases @ H.T
+        else:
+            bases = H.T @ bases
+
+    # get point coordinates in (strained) generator coordinate system
+    point_fcoord = np.array(np.linalg.solve(bases, point))
 
     # get lattice points that are intersected by miller plane
     with np.errstate(divide="ignore"):  #check for infs directly
@@ -478,18 +481,10 @@ def snap_plane_near_point(point: np.ndarray,
             new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
                                 if not np.isinf(target_fcoord[i]) else point_fcoord[i]
 
-    if generator.strain_field is None:
-        # scale back to real space
-        new_point = generator.voxel.sbases @ new_point
-
-        # get perpendicular vector
-        normal = generator.voxel.reciprocal_bases.T @ miller_indices
-    else:
-        H = generator.voxel.sbases
-        G = generator.strain_field.matrix
-        new_point = G @ H @ new_point
+    # scale back to real space
+    new_point = bases @ new_point
 
-        # get perpendicular vector
-        normal = np.linalg.inv(H @ G).T @ miller_indices
+    # get perpendicular vector
+    normal = np.linalg.inv(bases).T @ miller_indices
 
     return Plane(normal=normal, point=new_point)
\ No newline at end of file
-- 
2.43.0


From db7baa7bb3f37477bf2e8f1411d64cada4c5b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 31/46] fix: tile the periodic cell exactly so packing sees
 every close pair

---
 czone/generator/amorphous_algorithms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..d8e9fd4 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -42,7 +42,7 @@ def get_tuples(tx, ty, tz):
 
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    num_blocks = np.maximum(np.floor(dims / (min_dist)), 1).astype(int)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -121,6 +121,8 @@ def gen_p_substrate(dims: List[float],
 
     # get voxel grid and list of local voxel neighbors
     voxels, neighbors = get_voxels(min_dist, dims)
+    # voxels tile the periodic cell exactly and are at least min_dist wide
+    voxel_dims = dims / np.array([len(voxels), len(voxels[0]), len(voxels[0][0])])
 
     if print_progress:
         print("Starting particle loop for %i particles" % num_c)
@@ -132,7 +134,7 @@ def gen_p_substrate(dims: List[float],
             print("On %i of %i" % (i, num_c))
         new_coord = rng.uniform(size=(1, 3)) * dims
 
-        block = np.floor(new_coord / (min_dist)).astype(int)
+        block = np.floor(new_coord / voxel_dims).astype(int)
         block = block[0]
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
@@ -143,7 +145,7 @@ def gen_p_substrate(dims: List[float],
         while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):
 
             new_coord = rng.uniform(size=(1, 3)) * dims
-            block = np.floor(new_coord / (min_dist)).astype(int)
+            block = np.floor(new_coord / voxel_dims).astype(int)
             block = block[0]
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
@@ -179,7 +181,8 @@ def gen_p_substrate_batched(dims: List[float],
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
     voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    num_blocks = np.maximum(np.floor(dims / (voxel_size)), 1).astype(int)
+    voxel_size = dims / num_blocks
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
-- 
2.43.0


From 17be14bc5660bb4c69428e18fa724bea29c2d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 32/46] fix: store alpha-shape simplex indices as a flat array

---
 czone/surface/alpha_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..11aba2c 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -103,7 +103,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
@@ -178,7 +178,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
-- 
2.43.0


From 45bb5e52b23bb5b960c147df1d6b878a792ba979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 33/46] fix: make seeded adsorbate placement reproducible
 without sampling

---
 czone/surface/adsorbate.py   | 1 +
 czone/surface/alpha_shape.py | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..57af4e7 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -200,6 +200,7 @@ def add_adsorbate(mol: BaseMolecule,
     else:
         surface_ind, shape_dict = alpha_shape_alg_3D(points=volume.atoms, 
                                                     probe_radius=probe_radius, 
+                                                    rng=rng,
                                                     return_alpha_shape=True)
 
     valid_indices = np.zeros(volume.atoms.shape[0], dtype=bool)
diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index 11aba2c..ff53066 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -48,7 +48,7 @@ def tetrahedron_circumradii(points):
     radius = np.linalg.norm(center,axis=0)
     return radius
 
-def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
+def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False, rng=None):
     """Use alpha shape algorithm to determine points on exterior of collection of points.
 
     Performs alpha-shape algorithm ##TODO: cite a source here
@@ -63,11 +63,14 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
     ## Get alpha-shape
     # get delaunay triangulation of points
-    points = points+1e-4*np.random.rand(*points.shape)
+    if rng is None:
+        rng = np.random.default_rng()
+
+    points = points+1e-4*rng.random(points.shape)
     tri = Delaunay(points)
 
     # get cicrcumradii of all tetrahedron in triangulation
-    circumradii = tetrahedron_circumradii((points+1e-10*np.random.rand(*points.shape))[tri.simplices, :])
+    circumradii = tetrahedron_circumradii((points+1e-10*rng.random(points.shape))[tri.simplices, :])
     
     # check which tetrahedra in triangulation are part of alpha-shape for given probe radius
     probe_test = circumradii <= probe_radius
-- 
2.43.0


From 16b8e418c5a02bf05f7bf393d0dc14659d224758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 34/46] fix: bound cylinders whose axis is parallel to [111]

---
 czone/volume/algebraic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 11e77c2..b42d73d 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -318,7 +318,8 @@ class Cylinder(BaseAlgebraic):
         vz = np.copy(self.axis.T)[:,None]
 
         # get vectors perpendicular to axis
-        vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
+        # any vector not parallel to axis works; fix to make generation stable
+        vs_0 = np.eye(3)[:, [np.argmin(np.abs(self.axis))]]
         vs_0 = vs_0/np.linalg.norm(vs_0)
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
-- 
2.43.0


From d0b1e6fe5d6a6797ed48762a4780f6a894b38505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 35/46] fix: pass surface energies to the WulffSingle
 convenience constructors

---
 czone/prefab/wulff.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..183d001 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From 39ecb88bac2be91be7caaf4a2c477bd6450ff870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 36/46] fix: compute the Wulff construction on demand in
 get_areas

---
 czone/prefab/wulff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 183d001..4f29f6d 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -169,7 +169,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
-- 
2.43.0


From 48b8e1b1b7fd0cd886763adaa0d4f1d1cd537630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 37/46] fix: drop the cached Wulff construction when its inputs
 change

---
 czone/prefab/wulff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4f29f6d..0a3614b 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -57,6 +57,7 @@ class WulffBase(ABC):
         assert (isinstance(val, Generator)
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
+        self._wulff = None
         p_struct = val.structure.get_primitive_structure()
         self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
 
@@ -76,6 +77,7 @@ class WulffBase(ABC):
             self._natoms = int(val)
         except:
             raise TypeError("natoms must be convertible to integer")
+        self._wulff = None
 
     @property
     def surface_energies(self):
@@ -89,6 +91,7 @@ class WulffBase(ABC):
                 "surface energies must be passed as tuple pairs of miller indices and floats"
 
         self._surface_energies = vals
+        self._wulff = None
 
     ####################
     ###### Methods #####
-- 
2.43.0


From 95540548059901522f8929bed355436e27a60a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 38/46] fix: a rejected origin atom index leaves the molecule's
 origin unchanged

---
 czone/molecule/molecule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index d4e6b24..ce6573c 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -209,8 +209,8 @@ class BaseMolecule(ABC):
             self._origin = point
 
         elif idx is not None: 
-            self._origin_tracking = True
             self._origin_idx = idx
+            self._origin_tracking = True
 
     @property
     def orientation(self):
-- 
2.43.0


From dcd4a7ba08cd4f07c2ba8e7b7b4ce9ea24350402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 39/46] fix: volumes define atoms and species before they are
 populated

---
 czone/volume/volume.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 456ca9a..1a8c421 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -139,6 +139,7 @@ class Volume(BaseVolume):
         self._hull = None
         self._generator = None
         self._atoms = None
+        self._species = None
         self._tri = None
         self._alg_objects = []
         self._priority = 0
@@ -408,6 +409,8 @@ class MultiVolume(BaseVolume):
     """
 
     def __init__(self, volumes: List[BaseVolume] = None, priority: int = None):
+        self._atoms = None
+        self._species = None
         self._priority = 0
         self._volumes = []
         if not (volumes is None):
-- 
2.43.0


From 0a5ad90582b161d176f622c26eef017097a38213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 40/46] fix: a Reflection without a plane defines its plane

---
 czone/transform/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 93ab2b9..5c627a4 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -306,6 +306,7 @@ class Reflection(MatrixTransform):
                  plane=None,
                  locked: bool = True,
                  basis_only: bool = False):
+        self._plane = None
         super().__init__(matrix=None,
                          origin=None,
                          locked=locked,
-- 
2.43.0


From e450850c8d286d9fcf61396f070b302203c96c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 41/46] fix: a rejected assignment of points leaves the
 volume's points in place

---
 czone/volume/volume.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 1a8c421..d1a904f 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -176,11 +176,13 @@ class Volume(BaseVolume):
 
     @points.setter
     def points(self, points):
+        previous = (self._points, self._hull)
         try:
             self._points = None  #clear points
             self._hull = None
             self.addPoints(points)
         except AssertionError:
+            self._points, self._hull = previous
             raise ValueError("Check shape of input array.")
 
     @property
-- 
2.43.0


From 1a7f6cbae9f3c2bfee206a0afe31e0f72ed24032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 42/46] fix: a space group number overrides the symbol when
 both are supplied, as documented

---
 czone/generator/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 6daaf91..780bf8e 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -277,7 +277,7 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sym is None:
+        if sgn is not None:
             sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
         else:
             sg = SpaceGroup(int_symbol=sym)
-- 
2.43.0


From b53e37fca7c42c0a554196df24b43ec3dfc154ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 43/46] fix: store a sphere's centre as a flat vector, so that
 a 3x1 column is not broadcast against the tested points

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index b42d73d..b356308 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -122,7 +122,7 @@ class Sphere(BaseAlgebraic):
         center = np.array(center)  #cast to np array if not already
         if center.size != 3 or center.shape[0] != 3:
             raise ValueError("Center must be an array with 3 elements")
-        self._center = center
+        self._center = center.reshape((3,))
 
 
 class Plane(BaseAlgebraic):
-- 
2.43.0


From 65538c23cd97070bbb944b67cd77bfb82120a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 44/46] fix: store a translation as a flat vector, so that a
 3x1 column is not broadcast against the points

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 5c627a4..19e1cd5 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -126,7 +126,7 @@ class Translation(BaseTransform):
         shift = np.array(shift)
         assert (shift.size == 3), "Shift must be a vector in 3D space"
         assert (shift.shape[0] == 3), "Shift must be a vector in 3D space"
-        self._shift = shift
+        self._shift = shift.reshape((3,))
 
     @property
     def params(self):
-- 
2.43.0


From fde84bed1ad32842ff380b4169dcea97daefd6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 45/46] fix: reject arrays of several points as the point of a
 plane

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index b356308..e1ae199 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -160,7 +160,7 @@ class Plane(BaseAlgebraic):
     @point.setter
     def point(self, point: np.ndarray):
         point = np.squeeze(np.array(point))  #cast to np array if not already
-        assert (point.shape[0] == 3), "Point must be a point in 3D space"
+        assert (point.shape == (3,)), "Point must be a point in 3D space"
         self._point = point
 
     @property
-- 
2.43.0


From 0132d75dc2a18c263d4c34f171dac459f65b3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:30 +0000
Subject: [PATCH 46/46] fix: restore a volume's points when flat points or no
 array are assigned to them

---
 czone/volume/volume.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index d1a904f..8898c0e 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -184,6 +184,9 @@ class Volume(BaseVolume):
         except AssertionError:
             self._points, self._hull = previous
             raise ValueError("Check shape of input array.")
+        except Exception:  #no array, or points without a convex hull
+            self._points, self._hull = previous
+            raise
 
     @property
     def alg_objects(self):
-- 
2.43.0

