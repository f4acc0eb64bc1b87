From 4405fa48b331dff23eea933cdc8d62b9f5e7f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 01/82] fix: frustum() wrote its vertical offset into the depth
 row

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index ceaa163..422a22e 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -131,7 +131,7 @@ def frustum(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=F
     M[1, 1] = +2.0 * znear / (top - bottom)
     M[2, 2] = -(zfar + znear) / (zfar - znear)
     M[0, 2] = (right + left) / (right - left)
-    M[2, 1] = (top + bottom) / (top - bottom)
+    M[1, 2] = (top + bottom) / (top - bottom)
     M[2, 3] = -2.0 * znear * zfar / (zfar - znear)
     M[3, 2] = -1.0
 
-- 
2.43.0


From 98d1a81adcd45462971d7acf0303fe51eb31203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 02/82] fix: ortho() put its horizontal offset in the z column

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 422a22e..835548c 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -213,7 +213,7 @@ def ortho(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=Fal
     M[1, 1] = +2.0 / (top - bottom)
     M[2, 2] = -2.0 / (zfar - znear)
     M[3, 3] = 1.0
-    M[0, 2] = -(right + left) / float(right - left)
+    M[0, 3] = -(right + left) / float(right - left)
     M[1, 3] = -(top + bottom) / float(top - bottom)
     M[2, 3] = -(zfar + znear) / float(zfar - znear)
 
-- 
2.43.0


From 3456d6a99a77fb6109564787fe95ddbc30cd0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 03/82] fix: fit() used undefined names

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 835548c..aed1eb1 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -310,7 +310,7 @@ def fit(vertices):
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
     # return 2*(vertices-vmin) / max(vmax-vmin)-1
-    V = 2*(vertices - Vmin) / max(Vmax-Vmin) - 1
+    V = 2*(vertices - vmin) / max(vmax-vmin) - 1
     return  V - (V.min(axis=0) + V.max(axis=0))/2
 
 
-- 
2.43.0


From 50787babaf850465b9f1eab319f8109b732300a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 04/82] fix: center() used an undefined name

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index aed1eb1..9b77238 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -360,7 +360,7 @@ def center(vertices):
 
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
-    return V - (vmax+vmin)/2
+    return vertices - (vmax+vmin)/2
 
 
 def xrotate(theta=0, dtype=np.float32, transpose=False):
-- 
2.43.0


From 59175381d14eb4fd627dadd6e9071dce9a7bc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 05/82] fix: lookat() ignored its transpose argument

---
 gsp_matplotlib/glm/glm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 9b77238..dc711a2 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -257,12 +257,17 @@ def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,0,1), dtype=np.float32, transpos
     Y = up
     X = normalize(np.cross(Y, Z))
     Y = normalize(np.cross(Z, X))
-    return np.array([
+    M = np.array([
         [X[0], X[1], X[2], -np.dot(X, eye)],
         [Y[0], Y[1], Y[2], -np.dot(Y, eye)],
         [Z[0], Z[1], Z[2], -np.dot(Z, eye)],
         [0, 0, 0, 1]], dtype=dtype)
 
+    if transpose:
+        return np.transpose(M)
+    else:
+        return M
+
 
 def scale(scale, dtype=np.float32, transpose=False):
     """Non-uniform scaling along the x, y, and z axes
-- 
2.43.0


From 4f439dca1d88938c8820b3c53babec2d5615fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 06/82] fix: lookat() defaults gave a singular matrix (up
 parallel to the line of sight)

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index dc711a2..3ee8ba2 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -222,7 +222,7 @@ def ortho(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=Fal
     else:
         return M
 
-def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,0,1), dtype=np.float32, transpose=False):
+def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,1,0), dtype=np.float32, transpose=False):
     """
     Creates a viewing matrix derived from an eye point, a reference
     point indicating the center of the scene, and an up vector.
-- 
2.43.0


From 2490233fe1e80f805394e3d4b0361fe1203bfc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 07/82] fix: align() returned NaN for parallel and opposite
 vectors

---
 gsp_matplotlib/glm/glm.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 3ee8ba2..70acdef 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -528,7 +528,7 @@ def align(U, V, dtype=np.float32, transpose=False):
         Rotation matrix
     """
 
-    a, b = normalize(U), normalize(V)
+    a, b = normalize(np.asarray(U, dtype=float)), normalize(np.asarray(V, dtype=float))
     v = np.cross(a, b)
     c = np.dot(a, b)
     s = np.linalg.norm(v)
@@ -536,7 +536,15 @@ def align(U, V, dtype=np.float32, transpose=False):
                   [ v[2],   0, -v[0]],
                   [-v[1], v[0],   0]])
     R = np.zeros((4,4), dtype=dtype)
-    R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / (s ** 2))
+    if s > 1e-8:
+        R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / (s ** 2))
+    elif c >= 0:
+        # Same direction (or null vector)
+        R[:3, :3] = np.eye(3)
+    else:
+        # Opposite directions: half turn around any orthogonal axis
+        axis = normalize(np.cross(a, np.eye(3)[np.argmin(np.abs(a))]))
+        R[:3, :3] = 2*np.outer(axis, axis) - np.eye(3)
     R[3, 3] = 1
 
     if transpose:
-- 
2.43.0


From 5629e7f0d369425c9a53d1e2a09a2cee7bb33c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 08/82] fix: camera() passed scalars where scale() and
 translate() take a vector

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 70acdef..0dea878 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -576,8 +576,8 @@ def camera(xrotation=25, yrotation=45, zoom=1, mode="perspective"):
     xrotation = min(max(xrotation, 0), 90)
     yrotation = min(max(yrotation, 0), 90)
     zoom = max(0.1, zoom)
-    model = scale(zoom,zoom,zoom) @ xrotate(xrotation) @ yrotate(yrotation)
-    view  = translate(0, 0, -4.5)
+    model = scale((zoom,zoom,zoom)) @ xrotate(xrotation) @ yrotate(yrotation)
+    view  = translate((0, 0, -4.5))
     if mode == "ortho":
         proj  = ortho(-1, +1, -1, +1, 1, 100)
     else:
-- 
2.43.0


From c0bbd5dc592c4c2fe2da99977921ba02d5df5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 09/82] fix: icosahedron() used an undefined name

---
 gsp_matplotlib/glm/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/shapes.py b/gsp_matplotlib/glm/shapes.py
index 19d951a..eae99fd 100644
--- a/gsp_matplotlib/glm/shapes.py
+++ b/gsp_matplotlib/glm/shapes.py
@@ -105,5 +105,5 @@ def icosahedron():
               [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9],
               [4, 9, 5], [2, 4, 11], [6, 2, 10], [8, 6, 7], [9, 8, 1] ]
     verts = np.array(verts, dtype=np.float32)/np.sqrt(a+2)/2
-    faces = np.array(faces, dtype=uint32)
+    faces = np.array(faces, dtype=np.uint32)
     return verts, faces
-- 
2.43.0


From 2772e693b23fbc83cc9e1772e88e51877b253fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 10/82] fix: a Meter measured ten metres

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 4975fd7..27aad07 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -214,7 +214,7 @@ class Meter(Measure):
         """Evaluate the transform"""
 
         measure = Measure.evaluate(self, variables)
-        return 10e2*self.dpi(variables)/2.54 * measure
+        return 1e2*self.dpi(variables)/2.54 * measure
 
 class Kilometer(Measure):
     """
-- 
2.43.0


From 59972349f77c6c8e78ee572f76d64fd9e04e9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 11/82] fix: Measure could not be instantiated

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 27aad07..6cb1fd1 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -45,7 +45,7 @@ class Measure(Transform):
 
     @command("transform.Measure")
     def __init__(self):
-        super.__init__(__no_command__ = True)
+        Transform.__init__(self, __no_command__ = True)
 
 
     def evaluate(self, variables):
-- 
2.43.0


From 3dc3dade3cd5e957dd034c34c9baf015f1482bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 12/82] fix: copying an operator lost its right operand when it
 is not a transform

---
 gsp/transform/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 81c1a8d..9a61786 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -115,7 +115,7 @@ class Operator(Transform):
         if isinstance(self._right, Transform):
             transform.set_right(self._right.copy())
         else:
-            transform.set_left(self._left)
+            transform.set_right(self._right)
 
         return transform
 
-- 
2.43.0


From 45de094ab5fb7506c84d6e874daf07dde77e1642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 13/82] fix: Colormap ignored explicit bounds equal to zero

---
 gsp/transform/colormap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 7bae427..fb39c61 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -79,6 +79,7 @@ class Colormap(Transform):
         else:
             value = self._buffer
         cmap = plt.get_cmap(self._colormap)
-        norm = mpl.colors.Normalize(vmin=self._vmin or value.min(),
-                                    vmax=self._vmax or value.max())
+        vmin = self._vmin if self._vmin is not None else value.min()
+        vmax = self._vmax if self._vmax is not None else value.max()
+        norm = mpl.colors.Normalize(vmin=vmin, vmax=vmax)
         return cmap(norm(value))
-- 
2.43.0


From 7ff3157670a087c5c81f4023ee0710d6c93f7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 14/82] fix: Colormap.set_colormap() had no effect

---
 gsp/transform/colormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index fb39c61..4a823d4 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -52,7 +52,7 @@ class Colormap(Transform):
         colormap:
             Name of the colormap
         """
-        pass
+        self._colormap = colormap
 
     def copy(self):
         """
-- 
2.43.0


From bc361d1706081bb199a9121041f610d9423eb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 15/82] fix: repr() of a transform bound to an array or a
 number raised

---
 gsp/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 2bac37a..c020682 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -203,6 +203,8 @@ class Transform(Object):
 
         if self._next:
             s += "(%s)" % repr(self._next.id)
-        elif self._buffer:
+        elif isinstance(self._buffer, Object):
             s += "(%s)" % repr(self._buffer.id)
+        elif self._buffer is not None:
+            s += "(%s)" % repr(self._buffer)
         return s
-- 
2.43.0


From 090653e27b2882fbae97f6720653ea4d5acb67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 16/82] fix: dividing a number by a transform was not possible

---
 gsp/transform/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index c020682..33a1630 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -193,6 +193,10 @@ class Transform(Object):
         from gsp.transform import Div
         return Div(self, other)
 
+    def __rtruediv__(self, other):
+        from gsp.transform import Div
+        return Div(other, self)
+
 
     def __repr__(self):
 
-- 
2.43.0


From acf2d5555156eadd2823fb99108a37fc3683e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 17/82] fix: accessors and colormaps could not be evaluated on
 a GSP buffer

---
 gsp/transform/accessor.py | 1 +
 gsp/transform/colormap.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 7d2ea13..f997a8d 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -41,6 +41,7 @@ class Accessor(Transform):
         else:
             raise ValueError("Transform is not bound")
 
+        buffer = np.asanyarray(buffer)
         if buffer.dtype.names:
             buffer = buffer[self._key]
         elif self._key in "xyzw":
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 4a823d4..4569767 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from gsp.io.command import command
 from gsp.transform import Transform
@@ -78,6 +79,7 @@ class Colormap(Transform):
             value = self._next.evaluate(buffers)
         else:
             value = self._buffer
+        value = np.asanyarray(value)
         cmap = plt.get_cmap(self._colormap)
         vmin = self._vmin if self._vmin is not None else value.min()
         vmax = self._vmax if self._vmax is not None else value.max()
-- 
2.43.0


From ac38f489c71e617e7034e93cedc5a470ea92cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 18/82] fix: an accessor took an unknown key such as 'xy' for
 its first component

---
 gsp/transform/accessor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index f997a8d..1d2bdd9 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -44,14 +44,14 @@ class Accessor(Transform):
         buffer = np.asanyarray(buffer)
         if buffer.dtype.names:
             buffer = buffer[self._key]
-        elif self._key in "xyzw":
+        elif self._key in tuple("xyzw"):
             buffer = buffer[..., "xyzw".index(self._key)]
-        elif self._key in "rgba":
+        elif self._key in tuple("rgba"):
             buffer = buffer[..., "rgba".index(self._key)]
         else:
             raise IndexError(f"Unknown key {self._key}")
 
-        if "index" in buffers.keys():
+        if buffers is not None and "index" in buffers.keys():
             return buffer[buffers["index"]]
         else:
             return buffer
-- 
2.43.0


From 71cca7ce92e8a5c208c8ada678409a358857e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 19/82] fix: an Out transform with an unknown component did not
 say so

---
 gsp/transform/out.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 4df39a1..1a1ba37 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -57,9 +57,11 @@ class Out(Transform):
             name = self.name.split(".")[0]
             key = self.name.split(".")[-1]
             for swizzle in ["xyzw", "rgba"]:
-                if set(key).issubset(set(swizzle)):
+                if key and set(key).issubset(set(swizzle)):
                     index = [swizzle.index(c) for c in key]
                     break
+            else:
+                raise ValueError(f"Unknown component {key}")
         else:
             name = self.name
             index = None
-- 
2.43.0


From 6dc70ec49a9264ef1777da48a47347511bbe1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 20/82] fix: a command listed an object argument twice when its
 parameter has a default

---
 gsp/io/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4502ae4..d1f07f1 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -233,14 +233,14 @@ def command(name=None):
 
             # Named parameters
             for key,value in zip(kwargs.keys(), kwargs.values()):
-                if key not in parameters.keys():
+                if key not in parameters.keys() and key + "(id)" not in parameters.keys():
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
 
             # Default parameters
             for key,value in defaults.items():
-                if key not in parameters.keys():
+                if key not in parameters.keys() and key + "(id)" not in parameters.keys():
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
-- 
2.43.0


From 25c3402a2dfe571982109afb6b864c59d78e7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 21/82] fix: an argument of a valid type was converted to
 another valid type

---
 gsp/io/command.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index d1f07f1..404059c 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -273,6 +273,11 @@ def command(name=None):
                             check = True
                             break
 
+                    # No conversion if parameter is of any of the annotated types
+                    if check:
+                        continue
+
+                    for annotated_type in annotated_types:
                         # Search for possible converters in any base type
                         for base_type in base_types:
                             # Found converter, register it
-- 
2.43.0


From cf5a9565a3b8f42e1d2aeb988b7675984e8bdbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 22/82] fix: running a recorded queue failed on the first
 object creation

---
 gsp/io/command.py          | 4 ++--
 gsp_matplotlib/__init__.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 404059c..aa9109a 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -440,9 +440,9 @@ class Command:
         if "." in self.methodname:
             module, name = self.methodname.split(".")
             if len(module) > 0:
-                func = getattr(globals[module], name)
+                func = getattr(getattr(backend_module, module), name)
             else:
-                func = eval(name, globals, locals)
+                func = getattr(backend_module, name)
             object = func(**parameters)
             object.id = oid
             Object.objects[oid] = object
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index be10153..2bc494c 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -6,6 +6,7 @@ from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
 from gsp.core.types import Marker
+from gsp import transform
 
 from . import core
 from . import visual
-- 
2.43.0


From 6db17814876e2fcc1c2b26d0f49ce7314dfe830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 23/82] fix: an argument given as an object id was dropped when
 running a command

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index aa9109a..564a8c9 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -424,7 +424,7 @@ class Command:
             if key.endswith("(id)"):
                 _parameters[key[:-4]] = Object.objects[value]
             elif isinstance(value, OID):
-                parameters[key] = Object.objects[value]
+                _parameters[key] = Object.objects[value]
             elif isinstance(value, Converter):
                 _parameters[key] = value()
             else:
-- 
2.43.0


From a3cf4c46c56afd33fa30da1bb6a3970790c7b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 24/82] fix: running a queue could record into the active queue
 or leave it read-only

---
 gsp/io/command.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 564a8c9..8d3c4bc 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -147,11 +147,15 @@ class CommandQueue(metaclass = NamedSingleton):
             Dictionary containing the current scope's local variables
         """
 
-        readonly = self.readonly
-        self.readonly = True
-        for command in self.commands:
-            command.execute(backend_module)
-        self.readonly = readonly
+        global __record__
+
+        readonly, recording = self.readonly, __record__
+        self.readonly, __record__ = True, False
+        try:
+            for command in self.commands:
+                command.execute(backend_module)
+        finally:
+            self.readonly, __record__ = readonly, recording
 
 
     def push(self, command):
-- 
2.43.0


From 12d0c208c27f26502c1457225cfc03da41a28727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 25/82] fix: the first active queue was not the queue named
 default

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 8d3c4bc..ced9c58 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -62,7 +62,7 @@ class NamedSingleton(type):
     def __call__(cls, name="default", *args, **kwargs):
         if name == "active" or name is None:
             if CommandQueue.active is None:
-                CommandQueue.active = super(NamedSingleton, cls).__call__("default", *args, **kwargs)
+                CommandQueue.active = cls("default", *args, **kwargs)
             return CommandQueue.active
         if name not in cls._instances.keys():
             cls._instances[name] = super(NamedSingleton, cls).__call__(name, *args, **kwargs)
-- 
2.43.0


From 98c63ac0d96b6f65f3067c29ce3e55cd0841987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 26/82] fix: dumping, saving or loading an empty queue used the
 active queue instead

---
 gsp/io/ansi.py | 2 +-
 gsp/io/json.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index 204dacd..f4b8d5d 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -76,7 +76,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
     for command in queue.commands:
         commands += dump_command(command, stream=None)
diff --git a/gsp/io/json.py b/gsp/io/json.py
index adc4aaf..182fdac 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -60,7 +60,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = []
     for command in queue.commands:
         commands.append(dump_command(command, stream=None))
@@ -76,7 +76,7 @@ def dump(queue=None, filename=None):
 def save(filename, queue = None ):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     dump(queue, filename)
 
 
@@ -87,7 +87,7 @@ def load(filename, queue = None):
         commands = json.load(stream)["commands"]
 
     # Get default command queue
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     queue.empty()
 
     for command in commands:
-- 
2.43.0


From 142b11047852a90809c8e1c5c872d383bd55364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 27/82] fix: an object created after a replay could take over
 the id of a replayed object

---
 gsp/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp/object.py b/gsp/object.py
index 50ada14..adced4a 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -77,6 +77,8 @@ class Object:
         if self._id in Object.objects.keys():
             del Object.objects[self._id]
             Object.objects[newid] = self
+        # Make sure newid will not be given to an object created afterwards
+        OID.counter = itertools.count(max(next(OID.counter), newid))
         self._id = newid
 
     def __hash__(self):
-- 
2.43.0


From af82c1a3d6f565e9a9266df34d5147cf478a00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 28/82] fix: an array computed from a tracked array shared its
 tracker and corrupted it

---
 gsp_matplotlib/glm/ndarray/tracked.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index a48e145..8c63155 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -43,13 +43,13 @@ class tracked(np.ndarray):
 
         if not isinstance(obj, tracked):
             self.__class__.__init__(self)
-        if obj is None:
-            self._extents = 0, self.size*self.itemsize
-        else:
-            self._extents = self._compute_extents(obj)
-        self._dirty = self._extents
-        self._tracker = getattr(obj, '_tracker', None)
-        if self._tracker is None and self.__tracker_class__ is not None:
+        self._dirty = 0, self.size*self.itemsize
+        self._tracker = None
+        if isinstance(obj, tracked):
+            # Only views share the tracker of the array they originate from
+            if np.may_share_memory(self, obj):
+                self._tracker = obj._tracker
+        elif obj is not None and self.__tracker_class__ is not None:
             self._tracker = self.__tracker_class__(obj)
 
     def clear(self):
-- 
2.43.0


From 3488d44d19d96556cbd6e372f69eb50c93b6f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 29/82] fix: writes to tracked arrays were notified at wrong
 offsets or with stale bytes

---
 gsp_matplotlib/glm/ndarray/tracked.py | 174 +++++++++++++-------------
 1 file changed, 87 insertions(+), 87 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 8c63155..091d3a3 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -52,108 +52,79 @@ class tracked(np.ndarray):
         elif obj is not None and self.__tracker_class__ is not None:
             self._tracker = self.__tracker_class__(obj)
 
+    @property
+    def _root(self):
+        """ Tracked array owning the memory this array is a view of """
+
+        root = self
+        while isinstance(root.base, tracked):
+            root = root.base
+        return root
+
     def clear(self):
         """ Clear dirty region"""
 
-        if isinstance(self.base, tracked):
-            self.base._dirty = None
-        elif self._dirty:
-            self._dirty = None
+        self._root._dirty = None
 
     @property
     def dirty(self):
         """ Dirty region as (start, stop) in bytes """
 
-        if isinstance(self.base, tracked):
-            return self.base.dirty
-        elif self._dirty:
-            return self._dirty
-        return None
+        return self._root._dirty
 
     def _update(self, start, stop):
         """ Update dirty region """
 
-        if isinstance(self.base, tracked):
-            self.base._update(start, stop)
-        else:
-            if not hasattr(self, "_dirty") or self._dirty is None:
-                self._dirty = start, stop
-            else:
-                start = min(self._dirty[0], start)
-                stop = max(self._dirty[1], stop)
-                self._dirty = start, stop
+        root = self._root
+        if root._dirty is not None:
+            start = min(root._dirty[0], start)
+            stop = max(root._dirty[1], stop)
+        root._dirty = start, stop
 
     def _compute_extents(self, Z):
-        """Compute extents (start, stop) in bytes in the base array"""
-
-        if Z.base is not None:
-            base = Z.base.__array_interface__['data'][0]
-            view = Z.__array_interface__['data'][0]
-            offset = view - base
-            shape = np.array(Z.shape) - 1
-            strides = Z.strides[-len(shape):]
-            size = (shape*strides).sum() + Z.itemsize
-            return offset, offset+size
-        return 0, Z.size*Z.itemsize
-
-    # def _compute_extents(self, Z):
-    #     """Compute extents (start, stop) in bytes in the base array"""
-
-    #     if Z.base is not None:
-    #         base = Z
-    #         while base.base is not None:
-    #             base = base.base
-    #         base = base.__array_interface__['data'][0]
-    #         view = Z.__array_interface__['data'][0]
-    #         offset = view - base
-    #         shape = np.array(Z.shape) - 1
-    #         strides = Z.strides[-len(shape):]
-    #         size = (shape*strides).sum() + Z.itemsize
-    #         return offset, offset + int(size)
-    #     return 0, Z.size*Z.itemsize
-
-
-    def __getitem__(self, key):
-        Z = np.ndarray.__getitem__(self, key)
-        if not hasattr(Z, 'shape') or Z.shape == ():
-            return Z
-        Z._extents = self._compute_extents(Z)
-        return Z
+        """ Compute extents (start, stop) in bytes of Z in the root array """
+
+        root = self._root
+        # Extents have no meaning if root is not a single block of memory or
+        # if Z is not a view (fancy indexing)
+        if not root.flags.c_contiguous or not np.may_share_memory(Z, root):
+            return 0, root.size*root.itemsize
+        start = Z.__array_interface__['data'][0] - root.__array_interface__['data'][0]
+        stop = start + Z.itemsize
+        for size, stride in zip(Z.shape, Z.strides):
+            if stride < 0:
+                start += (size-1)*stride
+            else:
+                stop += (size-1)*stride
+        return start, stop
+
+    def _notify(self):
+        """ Send the dirty region to the tracker and clear it """
+
+        root = self._root
+        if root._tracker and root._dirty:
+            start, stop = root._dirty
+            data = np.asarray(root).ravel().view(np.ubyte)
+            root._tracker.set_data(start, data[start:stop].tobytes())
+            root.clear()
 
     def __setitem__(self, key, value):
         Z = np.ndarray.__getitem__(self, key)
-        if Z.shape == ():
-            # This test for the case of [...,index] notation. Since we
-            # know the result is a scalar, we can safely remove the
-            # ellipsis component (that should be the first item).
-            if (isinstance(key, tuple)):
-                key = tuple([k for k in key if k is not Ellipsis])
-            key = tuple(np.mod(np.array(key), self.shape))
-            offset = np.ravel_multi_index(key, self.shape, mode='wrap')*self.itemsize
-            self._update(offset, offset+self.itemsize)
+        if not isinstance(Z, np.ndarray):
+            # Single item: add an ellipsis to have a view instead of a copy
+            item = key if isinstance(key, tuple) else (key,)
+            Z = np.ndarray.__getitem__(self, item + (Ellipsis,))
 
         # Test for fancy indexing
         elif (Z.base is not self and (isinstance(key, list) or
                (hasattr(key, '__iter__') and
                 any(isinstance(k, (list,np.ndarray)) for k in key)))):
             raise NotImplementedError("Fancy indexing not supported")
-        else:
-            Z._extents = self._compute_extents(Z)
-            self._update(Z._extents[0], Z._extents[1])
-        np.ndarray.__setitem__(self, key, value)
 
-        if self._tracker:
-            base = self
-            while base.base is not None and isinstance(base.base, tracked):
-                base = base.base
-            data = base.view(np.ubyte).ravel()
-            start, stop = self._dirty
-            if base is not self:
-                base._tracker.set_data(start, data[start:stop].tobytes())
-                base.clear()
-            else:
-                self._tracker.set_data(start, data[start:stop].tobytes())
-                self.clear()
+        np.ndarray.__setitem__(self, key, value)
+        if Z.size:
+            self._update(*self._compute_extents(Z))
+            self._notify()
 
     def __getslice__(self, start, stop):
         return self.__getitem__(slice(start, stop))
@@ -161,18 +132,47 @@ class tracked(np.ndarray):
     def __setslice__(self, start, stop,  value):
         self.__setitem__(slice(int(start), int(stop)), value)
 
+    def _inplace(self, operator, other):
+        """ Apply in-place operator on the array """
+
+        result = getattr(np.ndarray, operator)(self, other)
+        if self.size:
+            self._update(*self._compute_extents(self))
+            self._notify()
+        return result
+
     def __iadd__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__iadd__(self, other)
+        return self._inplace("__iadd__", other)
 
     def __isub__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__isub__(self, other)
+        return self._inplace("__isub__", other)
 
     def __imul__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__imul__(self, other)
+        return self._inplace("__imul__", other)
+
+    def __itruediv__(self, other):
+        return self._inplace("__itruediv__", other)
+
+    def __ifloordiv__(self, other):
+        return self._inplace("__ifloordiv__", other)
+
+    def __imod__(self, other):
+        return self._inplace("__imod__", other)
+
+    def __ipow__(self, other):
+        return self._inplace("__ipow__", other)
+
+    def __iand__(self, other):
+        return self._inplace("__iand__", other)
+
+    def __ior__(self, other):
+        return self._inplace("__ior__", other)
+
+    def __ixor__(self, other):
+        return self._inplace("__ixor__", other)
+
+    def __ilshift__(self, other):
+        return self._inplace("__ilshift__", other)
 
-    def __idiv__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__idiv__(self, other)
+    def __irshift__(self, other):
+        return self._inplace("__irshift__", other)
-- 
2.43.0


From a6e32212937f74dd31b395a0549a3c18b46311c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 30/82] fix: a JSON dump recorded into the active queue and
 used objects it did not create

---
 gsp/io/command.py | 20 ++++++++++++++++++++
 gsp/io/json.py    | 19 +++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index ced9c58..9ecf81f 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -12,6 +12,7 @@ import typing
 import inspect
 import itertools
 from datetime import datetime
+from contextlib import contextmanager
 from functools import wraps
 from types import UnionType
 from typing import Union, get_origin, get_args
@@ -182,6 +183,25 @@ class CommandQueue(metaclass = NamedSingleton):
         return False
 
 
+@contextmanager
+def capture():
+    """
+    Context manager that records commands into a private queue, leaving all
+    the other queues unchanged.
+    """
+
+    global __record__
+
+    active, recording = CommandQueue.active, __record__
+    queue = object.__new__(CommandQueue)
+    try:
+        queue.__init__("capture")
+        __record__ = True
+        yield queue
+    finally:
+        CommandQueue.active, __record__ = active, recording
+
+
 def get_default_args(func):
     """Retrieve default arguments and their values from a function. """
 
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 182fdac..484e537 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -7,7 +7,7 @@ import json
 import base64
 import numpy as np
 from gsp.object import Object
-from . command import CommandQueue, Command
+from . command import CommandQueue, Command, capture
 
 def default(obj):
     from gsp.core.types import Color
@@ -57,13 +57,28 @@ def dump_command(command, stream=sys.stdout):
     else:
         return payload
 
+def dump_commands(command):
+    """
+    Dump a command, preceded by the commands creating the objects that
+    result from the conversion of its parameters (if any).
+    """
+
+    commands = []
+    with capture() as created:
+        payload = dump_command(command, stream=None)
+    for creation in created.commands:
+        commands.extend(dump_commands(creation))
+    commands.append(payload)
+    return commands
+
+
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
     queue = CommandQueue("active") if queue is None else queue
     commands = []
     for command in queue.commands:
-        commands.append(dump_command(command, stream=None))
+        commands.extend(dump_commands(command))
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From b2c0ae8c4edd4719d4cba2da0ff0a3c47d54509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 31/82] fix: matrices and structured data types could not be
 saved to JSON

---
 gsp/io/json.py                | 12 ++++++++----
 gsp_matplotlib/core/buffer.py |  4 ++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index 484e537..33e1c8a 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -8,20 +8,24 @@ import base64
 import numpy as np
 from gsp.object import Object
 from . command import CommandQueue, Command, capture
+from . convert import convert
 
 def default(obj):
-    from gsp.core.types import Color
+    from gsp.core.types import Matrix
 
     if isinstance(obj, memoryview):
         return base64.b64encode(bytes(obj)).decode()
     elif isinstance(obj, bytes):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, np.dtype):
+        # Structured and sub-array types have no string that converts back
+        if obj.names or obj.shape:
+            return convert(obj, "str")
         return str(obj)
     elif isinstance(obj, np.ndarray):
-        return base64.b64encode(obj).decode()
-    elif isinstance(obj, Color):
-        return tuple(obj._color.tolist())
+        return base64.b64encode(obj.tobytes()).decode()
+    elif isinstance(obj, Matrix):
+        return np.asarray(obj).ravel().tolist()
     elif isinstance(obj, Object):
         return obj.id
     raise TypeError(f'Object of type {obj.__class__.__name__} is not JSON serializable')
diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 32fa690..d58507c 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -4,6 +4,7 @@
 from __future__ import annotations # Solve circular references with typing
 import numpy as np
 from gsp.io.command import command, register
+from gsp.io.convert import convert
 
 from gsp import core
 
@@ -17,6 +18,9 @@ class Buffer(core.Buffer):
                        data : memoryview | bytes = None):
         super().__init__(count, dtype, data, __no_command__ = True)
         self._count = count
+        # Textual description of a structured or sub-array type
+        if isinstance(dtype, str) and ":" in dtype:
+            dtype = convert(dtype, "dtype")
         self._dtype = dtype
 
         if isinstance(data, str):
-- 
2.43.0


From 8bd6589ddba1902ba351f043ba1164856ce5bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 32/82] fix: matrices could not be dumped nor used for
 rendering once loaded

---
 gsp/core/types.py          | 8 +++++---
 gsp/visual/visual.py       | 4 +++-
 gsp_matplotlib/__init__.py | 1 +
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index 4ccef29..d1e4e2e 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -50,10 +50,12 @@ class Matrix:
             The 16 values of the matrix
         """
 
-        self._data = np.frombuffer(data, dtype=np.float32)
+        if isinstance(data, (bytes, memoryview)):
+            data = np.frombuffer(data, dtype=np.float32)
+        self._data = np.asarray(data, dtype=np.float32).reshape(4,4)
 
-    def __array__(self):
-        return self._data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self._data, dtype=dtype)
 
 
 # class Color:
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index ae20046..222ba9a 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -116,7 +116,9 @@ class Visual(Object):
             self._proj = proj
 
         try:
-            self._transform = self._proj @ self._view @ self._model
+            self._transform = (np.asarray(self._proj).reshape(4,4) @
+                               np.asarray(self._view).reshape(4,4) @
+                               np.asarray(self._model).reshape(4,4))
         except:
             self._transform = None
 
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 2bc494c..4461d25 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,6 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
+from gsp.core import Matrix
 from gsp.core.types import Marker
 from gsp import transform
 
-- 
2.43.0


From 66239a3cee75f22b0db5206c56133663ffd3718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 33/82] fix: Color to list and tuple and str to memoryview
 conversions raised

---
 gsp/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 3e62dcb..0cbd194 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -12,13 +12,14 @@ from . import transform
 
 # minimal version of python is 3.11 - check it is respected. if not, then exit with an error message
 import sys
+import base64
 if sys.version_info < (3, 11):
     print("Python 3.11 or higher is required.")
     sys.exit(1)
 
 @io.register("str", "memoryview")
 def str_to_memoryview(obj):
-    return memoryview(bytes(obj))
+    return memoryview(base64.b64decode(obj))
 
 @io.register("list", "Color")
 def list_to_Color(obj):
@@ -30,11 +31,11 @@ def tuple_to_Color(obj):
 
 @io.register("Color", "list")
 def Color_to_list(obj):
-    return obj._color.tolist()
+    return list(obj)
 
 @io.register("Color", "tuple")
 def Color_to_tuple(obj):
-    return tuple(obj._color.tolist())
+    return tuple(obj)
 
 @io.register("list", "tuple")
 def list_to_tuple(obj):
-- 
2.43.0


From c36e9ecf0ba0c3a9df66c2e8579bada600457e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 34/82] fix: creation of Segments was recorded as a creation of
 Points

---
 gsp_matplotlib/visual/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 3ad7918..95949b7 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -16,7 +16,7 @@ class Segments(visual.Segments):
 
     __doc__ = visual.Segments.__doc__
 
-    @command("visual.Points")
+    @command("visual.Segments")
     def __init__(self, positions   : Transform | Buffer,
                        line_caps   : Transform | Buffer | LineCap,
                        line_colors : Transform | Buffer | Color,
-- 
2.43.0


From 7cff48acb130c4ab571d534105851fd84cef7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 35/82] fix: the array of a buffer lost its items or could not
 be read

---
 gsp_matplotlib/core/buffer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index d58507c..cc48207 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -38,13 +38,21 @@ class Buffer(core.Buffer):
         # buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
         pass
 
-    def __array__(self):
+    def __array__(self, dtype=None, copy=None):
         if self._array is None:
             if self._data is not None:
-                self._array = np.frombuffer(self._data, self._dtype)
+                data = self._data
+                # Memory that is not contiguous has no buffer
+                if isinstance(data, memoryview) and not data.c_contiguous:
+                    data = data.tobytes()
+                self._array = np.frombuffer(data, self._dtype)
+                # Items made of several elements
+                size = len(self._array)
+                if size != self._count and self._count and size % self._count == 0:
+                    self._array = self._array.reshape(self._count, -1)
             else:
                 self._array = np.empty(self._count, self._dtype)
-        return self._array
+        return self._array if dtype is None else self._array.astype(dtype)
 
     def __repr__(self):
         return f"Buffer({self._count}, {self._dtype})"
-- 
2.43.0


From 14d1ea0b737c3a8389a6aad0f7b6c647cd2c85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 36/82] fix: Buffer.set_data() had no effect

---
 gsp_matplotlib/core/buffer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index cc48207..67ccf08 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -2,6 +2,7 @@
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
 from __future__ import annotations # Solve circular references with typing
+import base64
 import numpy as np
 from gsp.io.command import command, register
 from gsp.io.convert import convert
@@ -24,7 +25,6 @@ class Buffer(core.Buffer):
         self._dtype = dtype
 
         if isinstance(data, str):
-            import base64
             self._data = base64.b64decode(data)
         else:
             self._data = data
@@ -33,10 +33,13 @@ class Buffer(core.Buffer):
     @command()
     def set_data(self, offset : int,
                        data : memoryview | bytes):
-        # Be careful with set_data when the underlying data is already tracked
-        # buffer = np.asanyarray(self).view(np.ubyte)
-        # buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
-        pass
+        if isinstance(data, str):
+            data = base64.b64decode(data)
+        array = self.__array__()
+        if not array.flags.writeable:
+            array = self._array = array.copy()
+        buffer = array.reshape(-1).view(np.ubyte)
+        buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
 
     def __array__(self, dtype=None, copy=None):
         if self._array is None:
-- 
2.43.0


From 52797d6e118b177a18dae39a8351b5f783b26aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 37/82] fix: lists could not be converted nor iterated

---
 gsp/core/list.py            |  2 +-
 gsp_matplotlib/__init__.py  | 13 ++++++-------
 gsp_matplotlib/core/list.py | 17 +++++++++++++++--
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/gsp/core/list.py b/gsp/core/list.py
index ddca82f..61301c6 100644
--- a/gsp/core/list.py
+++ b/gsp/core/list.py
@@ -41,7 +41,7 @@ class List(Object):
         """ Return the number of items in the list """
         
         if isinstance(self._itemsizes, (int)):
-            return len(data) / self._itemsizes
+            return len(self._data) // self._itemsizes
         else:
             return len(self._itemsizes)
         
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 4461d25..83a9b9d 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,6 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
+from .core.list import List
 from gsp.core import Matrix
 from gsp.core.types import Marker
 from gsp import transform
@@ -35,18 +36,16 @@ def list_to_Buffer(obj):
     #       In the current implementation, Buffer is created each time
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
-    # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
-    return Z._tracker.gsp_buffer
+    return ndarray_to_Buffer(np.asarray(obj))
 
 @register("list", "List")
 def list_to_List(obj):
+    # A flat list is a list of sizes
+    if not any(hasattr(item, "__len__") for item in obj):
+        return list_to_Buffer(obj)
     count = [len(sublist) for sublist in obj]
-    count = glm.ndarray.tracked(count)
     items = [item for sublist in obj for item in sublist]
-    # items = glm.ndarray.tracked(items)
-    items = items.view(glm.ndarray.tracked)
-    return List(items, count)
+    return List(list_to_Buffer(items), list_to_Buffer(count))
 
 @register("int", "Marker")
 def int_to_Marker(obj):
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 37a57f0..a81b5fc 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp.io.command import command, register
 
 from gsp import core
+from . buffer import Buffer
 
 class List(core.List):
 
@@ -16,8 +17,20 @@ class List(core.List):
                        itemsizes : Buffer | int):
         super().__init__(data, itemsizes, __no_command__ = True)
 
-    def __array__(self):
-        return self._data.__array__()
+    def __array__(self, dtype=None, copy=None):
+        return self._data.__array__(dtype)
+
+    def __getitem__(self, index):
+        """ Return the item at given index """
+
+        if not 0 <= index < len(self):
+            raise IndexError("List index out of range")
+        if isinstance(self._itemsizes, int):
+            start, size = index*self._itemsizes, self._itemsizes
+        else:
+            sizes = np.asarray(self._itemsizes)
+            start, size = int(sizes[:index].sum()), int(sizes[index])
+        return np.asarray(self._data)[start:start+size]
 
     def __repr__(self):
         return f"List({len(self)}, {self._data._dtype})"
-- 
2.43.0


From 7571c780cc06aafa5fbd70974267a82a258c8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 38/82] fix: a view of a tracked array was converted to the
 buffer of the whole array

---
 gsp_matplotlib/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 83a9b9d..12aff8f 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -65,7 +65,15 @@ def ndarray_to_Buffer(obj):
 
 @register("tracked", "Buffer")
 def tracked_to_Buffer(obj):
-    return obj._tracker.gsp_buffer
+    # The tracker of a view relates to the whole array
+    tracker = obj._tracker
+    if (isinstance(tracker, Tracker) and
+        tracker.ndarray.dtype == obj.dtype and
+        tracker.ndarray.size == obj.size and len(tracker.ndarray) == len(obj) and
+        tracker.ndarray.strides[-obj.ndim:] == obj.strides and
+        tracker.ndarray.ctypes.data == obj.ctypes.data):
+        return tracker.gsp_buffer
+    return ndarray_to_Buffer(np.asarray(obj))
 
 
 class Tracker:
-- 
2.43.0


From 4fbf04ba43fe86c32b40f3503a2e9a196f15a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 39/82] fix: running Buffer.set_data() wrote into the memory
 the buffer was created from

---
 gsp_matplotlib/core/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 67ccf08..bb89b61 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -36,7 +36,8 @@ class Buffer(core.Buffer):
         if isinstance(data, str):
             data = base64.b64decode(data)
         array = self.__array__()
-        if not array.flags.writeable:
+        # Memory the buffer was created from does not belong to the buffer
+        if not array.flags.owndata:
             array = self._array = array.copy()
         buffer = array.reshape(-1).view(np.ubyte)
         buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
-- 
2.43.0


From 6d7dd908a6693b2f60ebc8c6bbfa5ac9780eb063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 40/82] fix: text dump and dumps of loaded queues raised, and
 dumps recorded commands

---
 gsp/io/ansi.py | 16 +++++++++-------
 gsp/io/text.py | 31 ++++++++++++++++++++++++-------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index f4b8d5d..72c1472 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import Union, get_args, get_origin
 from datetime import datetime
 from gsp.object import Object, OID
-from . command import CommandQueue, Command, Converter, CID
+from . command import CommandQueue, Command, Converter, CID, capture
 
 def bold(s): return f"\033[1m{s}\033[0m"
 def dim(s): return f"\033[2m{s}\033[0m"
@@ -51,12 +51,12 @@ def dump_command(command, stream=sys.stdout):
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
+            name = key
             if key.endswith("(id)"):
-                key = key[:-4]
-                vtype = command.annotations[key]
-                key += "_ID"
-            else:
-                vtype = command.annotations[key]
+                name = key[:-4]
+                key = name + "_ID"
+            # Commands that have been loaded have no annotations
+            vtype = (command.annotations or {}).get(name, type(value))
 
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
@@ -79,7 +79,9 @@ def dump(queue=None, filename=None):
     queue = CommandQueue("active") if queue is None else queue
     commands = ""
     for command in queue.commands:
-        commands += dump_command(command, stream=None)
+        # Objects created by conversions are not part of the dump
+        with capture():
+            commands += dump_command(command, stream=None)
         commands += "\n"
 
     if filename is None:
diff --git a/gsp/io/text.py b/gsp/io/text.py
index 3e2312a..b611635 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -3,9 +3,11 @@
 # License: BSD 3 clause
 import io
 import sys
+from types import UnionType
+from typing import get_args
 from datetime import datetime
 from gsp.object import Object, OID
-from . command import CommandQueue, Command, Converter, CID
+from . command import CommandQueue, Command, Converter, CID, capture
 
 def bold(s): return s
 def dim(s): return s
@@ -40,16 +42,29 @@ def dump_command(command, stream=sys.stdout):
 
         # Immediate conversion for lisibility in the documentation
         if isinstance(value, Converter):
-            value = str(value()) + " (converted)"
+            value = value()
+            if isinstance(value, Object):
+                value = value.id
+            else:
+                value = str(value) + " (converted)"
 
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
-            vtype = command.annotations[key]
+            name = key
+            if key.endswith("(id)"):
+                name = key[:-4]
+                key = name + "_ID"
+            # Commands that have been loaded have no annotations
+            vtype = (command.annotations or {}).get(name, type(value))
+
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
             else:
-                vtype = str(vtype)
+                if isinstance(vtype, UnionType):
+                    vtype = " | ".join([str(v.__name__) for v in get_args(vtype)])
+                else:
+                    vtype = str(vtype)
             s +="     - %s: %s" % (key.upper(), value)
             s += dim(" (%s)\n" % (vtype))
 
@@ -61,10 +76,12 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue.get_default()
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
-    for command in queue._commands:
-        commands += dump_command(command, stream=None)
+    for command in queue.commands:
+        # Objects created by conversions are not part of the dump
+        with capture():
+            commands += dump_command(command, stream=None)
         commands += "\n"
 
     if filename is None:
-- 
2.43.0


From ca463d2fceda386bc0876f2e9a3f740dc8e41ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 41/82] fix: SVG paths could not be continued after a close
 command

---
 gsp/core/svg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index bcf525f..007f285 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -293,7 +293,7 @@ def _parse_path(pathdef, current_pos):
 
         if elements[-1] in COMMANDS:
             # New command.
-            last_command = command  # Used by S and T
+            last_command = command or 'Z'  # Used by S and T
             command = elements.pop()
             absolute = command in UPPERCASE
             command = command.upper()
@@ -342,7 +342,6 @@ def _parse_path(pathdef, current_pos):
             yield COMMAND_CODES['Z'], verts
 
             current_pos = start_pos
-            start_pos = None
             command = None  # You can't have implicit commands after closing.
 
         # LINETO
-- 
2.43.0


From d1a0497496824d598411b24748e04d2ce35a8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 42/82] fix: SVG arc flags without separators were not
 recognised

---
 gsp/core/svg.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index 007f285..fdc225b 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -30,6 +30,10 @@ UPPERCASE = set('MZLHVCSQTA')
 COMMAND_RE = re.compile(r"([MmZzLlHhVvCcSsQqTtAa])")
 FLOAT_RE = re.compile(r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?")
 
+# Radii, rotation, flags and end point of an arc
+ARC_RE = re.compile(r"(%s)[\s,]*(%s)[\s,]*(%s)[\s,]*([01])[\s,]*([01])[\s,]*(%s)[\s,]*(%s)"
+                    .replace("%s", FLOAT_RE.pattern))
+
 COMMAND_CODES = {
     'M': (Path.MOVETO,),    # moveto
     'L': (Path.LINETO,),    # line
@@ -264,9 +268,14 @@ def arc_path(start, radius, rotation, large, sweep, end):
 
 
 def _tokenize_path(pathdef):
+    command = None
     for x in COMMAND_RE.split(pathdef):
         if x in COMMANDS:
+            command = x
             yield x
+        elif command in ('A', 'a'):
+            # Flags are a single digit and may be followed by no separator
+            x = ARC_RE.sub(r"\1 \2 \3 \4 \5 \6 \7 ", x)
         for token in FLOAT_RE.findall(x):
             yield token
 
-- 
2.43.0


From b558951ca2477cebaf9cc160e8f8c99967dce2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 43/82] fix: pixels, points and markers were drawn twice

---
 gsp_matplotlib/visual/markers.py | 1 -
 gsp_matplotlib/visual/pixels.py  | 1 -
 gsp_matplotlib/visual/points.py  | 1 -
 3 files changed, 3 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 20550f7..e1a60c6 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -83,7 +83,6 @@ class Markers(visual.Markers):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index fab47b4..b498458 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -49,7 +49,6 @@ class Pixels(visual.Pixels):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 57e9ac8..6033a8f 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -43,7 +43,6 @@ class Points(visual.Points):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
-- 
2.43.0


From 6d3bd2e8f52150605687be923a93c6a4b8e7abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 44/82] fix: pixels were painted from the nearest to the
 farthest

---
 gsp_matplotlib/visual/pixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index b498458..4b7c7e2 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -68,7 +68,7 @@ class Pixels(visual.Pixels):
         positions = self.eval_variable("positions")
         # positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-        sort_indices = np.argsort(positions[:,2])
+        sort_indices = np.argsort(-positions[:,2])
         collection.set_offsets(positions[sort_indices,:2])
 
         self.set_variable("screen[positions]", positions)
-- 
2.43.0


From 8fdbeaa5e990618a6c02fc94e8dcb1335c4b16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 45/82] fix: the components of a color were mixed when a visual
 has four items

---
 gsp/visual/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 222ba9a..1c09af6 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -79,7 +79,7 @@ class Visual(Object):
             value = np.asanyarray(value)
         elif isinstance(value, (List, list)):
             return value
-        elif isinstance(value, (float, int, str)):
+        elif isinstance(value, (float, int, str, tuple)):
             return value
         elif value is None:
             return None
-- 
2.43.0


From 858f43274496e9b284982271db4cfe6504e56ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 46/82] fix: positions with two components were regrouped by
 three

---
 gsp_matplotlib/visual/markers.py  | 3 ++-
 gsp_matplotlib/visual/paths.py    | 3 ++-
 gsp_matplotlib/visual/points.py   | 3 ++-
 gsp_matplotlib/visual/polygons.py | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index e1a60c6..2098e03 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -100,7 +100,8 @@ class Markers(visual.Markers):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        if positions.ndim != 2:
+            positions = positions.reshape(-1,3)
 
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index b1df20d..60578d4 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -75,7 +75,8 @@ class Paths(visual.Paths):
         # Project positions onto screen
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        if positions.ndim != 2:
+            positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 6033a8f..6a75991 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -60,7 +60,8 @@ class Points(visual.Points):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        if positions.ndim != 2:
+            positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Invert depth buffer values before sorting
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index e0d737b..79fa13f 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -71,7 +71,8 @@ class Polygons(visual.Polygons):
         # Project positions onto screen
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        if positions.ndim != 2:
+            positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
-- 
2.43.0


From df14768aa83ff8aa86e656b1ad32fef37fdf276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 47/82] fix: pixels, points and markers could not use
 transforms for positions or sizes

---
 gsp/visual/markers.py            | 2 ++
 gsp/visual/pixels.py             | 2 ++
 gsp/visual/points.py             | 2 ++
 gsp_matplotlib/visual/markers.py | 5 +++--
 gsp_matplotlib/visual/points.py  | 2 +-
 5 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gsp/visual/markers.py b/gsp/visual/markers.py
index 5c463fa..8f70a6d 100644
--- a/gsp/visual/markers.py
+++ b/gsp/visual/markers.py
@@ -98,6 +98,8 @@ class Markers(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/pixels.py b/gsp/visual/pixels.py
index 005a9cd..a40ca80 100644
--- a/gsp/visual/pixels.py
+++ b/gsp/visual/pixels.py
@@ -66,6 +66,8 @@ class Pixels(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/points.py b/gsp/visual/points.py
index 3ab38ce..1f38a04 100644
--- a/gsp/visual/points.py
+++ b/gsp/visual/points.py
@@ -82,6 +82,8 @@ class Points(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 2098e03..6b4c657 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -27,7 +27,8 @@ class Markers(visual.Markers):
         super().__init__(positions, types, sizes, axis, angles,
                          fill_colors, line_colors, line_widths,
                          __no_command__ = True)
-        self.generate_markers(positions)
+        if not isinstance(positions, Transform):
+            self.generate_markers(positions)
 
     def generate_markers(self, positions):
         """ Generate path for markers at given positions."""
@@ -150,7 +151,7 @@ class Markers(visual.Markers):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.full(len(positions), sizes))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 6a75991..914989e 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -94,7 +94,7 @@ class Points(visual.Points):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.full(len(positions), sizes))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
-- 
2.43.0


From a331f7d4e26eb5aaa27cee2b491d060051029a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 48/82] fix: a list of sizes was taken for a list of indices in
 paths and polygons

---
 gsp_matplotlib/visual/paths.py    | 4 ++++
 gsp_matplotlib/visual/polygons.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 60578d4..c54eccd 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -82,6 +82,10 @@ class Paths(visual.Paths):
         # Here we consider all the case of indices shape
         indices = self.eval_variable("indices")
 
+        # List of integers means sizes
+        if isinstance(indices, list) and not any(hasattr(i, "__len__") for i in indices):
+            indices = np.asarray(indices, dtype=int)
+
         # Integer means paths of equal size, consecutive vertices
         if isinstance(indices, (int)):
             size  = indices
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 79fa13f..15ac7b8 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -78,6 +78,10 @@ class Polygons(visual.Polygons):
         # Here we consider all the case of indices shape
         indices = self.eval_variable("indices")
 
+        # List of integers means sizes
+        if isinstance(indices, list) and not any(hasattr(i, "__len__") for i in indices):
+            indices = np.asarray(indices, dtype=int)
+
         # Integer means polygons of equal size, consecutive vertices
         if isinstance(indices, (int)):
             size  = indices
-- 
2.43.0


From aaa72955a9fa61e85a7c536944a4b055fbdd9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 49/82] fix: array tracking was lost when rendering failed

---
 gsp_matplotlib/glm/ndarray/tracked.py | 17 +++++++++++++++++
 gsp_matplotlib/visual/markers.py      |  1 +
 gsp_matplotlib/visual/paths.py        |  1 +
 gsp_matplotlib/visual/pixels.py       |  1 +
 gsp_matplotlib/visual/points.py       |  1 +
 gsp_matplotlib/visual/polygons.py     |  1 +
 gsp_matplotlib/visual/segments.py     |  1 +
 7 files changed, 23 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 091d3a3..403acde 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -4,6 +4,23 @@
 # -----------------------------------------------------------------------------
 """ Memory aware array class """
 import numpy as np
+from functools import wraps
+
+def preserve_tracking(func):
+    """
+    Function decorator that ensures tracking is the same before and after
+    the call of the function, even if it fails.
+    """
+
+    @wraps(func)
+    def inner(*args, **kwargs):
+        tracker = tracked.__tracker_class__
+        try:
+            return func(*args, **kwargs)
+        finally:
+            tracked.__tracker_class__ = tracker
+    return inner
+
 
 class tracked(np.ndarray):
     """
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 6b4c657..ee69611 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -66,6 +66,7 @@ class Markers(visual.Markers):
             self.paths.append(path)
 
 
+    @glm.ndarray.preserve_tracking
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index c54eccd..de927fd 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -28,6 +28,7 @@ class Paths(visual.Paths):
                          line_styles, line_joins, line_caps, __no_command__ = True)
 
 
+    @glm.ndarray.preserve_tracking
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 4b7c7e2..b76de6c 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -30,6 +30,7 @@ class Pixels(visual.Pixels):
         super().__init__(positions, colors, __no_command__ = True)
 
 
+    @glm.ndarray.preserve_tracking
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 914989e..7c6f598 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -25,6 +25,7 @@ class Points(visual.Points):
                          line_widths, __no_command__ = True)
 
 
+    @glm.ndarray.preserve_tracking
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 15ac7b8..0172577 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -28,6 +28,7 @@ class Polygons(visual.Polygons):
                          line_widths, line_styles, line_joins, __no_command__ = True)
 
 
+    @glm.ndarray.preserve_tracking
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 95949b7..006e9e8 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -26,6 +26,7 @@ class Segments(visual.Segments):
                          line_widths, __no_command__ = True)
 
 
+    @glm.ndarray.preserve_tracking
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-- 
2.43.0


From 43f15f51fc7c1d84fa79c49c62bf13c45b54141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 50/82] fix: after a resize, all viewports were redrawn with
 the matrices of the last one

---
 gsp/visual/visual.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 1c09af6..2ea0dd9 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -22,6 +22,7 @@ class Visual(Object):
         self._in_variables = { }
         self._out_variables = { }
         self._viewports = {}
+        self._matrices = {}
         self._model = np.eye(4)
         self._view = np.eye(4)
         self._proj = np.eye(4)
@@ -108,12 +109,16 @@ class Visual(Object):
         """
 
         # We store the model/view/proj matrices for resize events
+        # Matrices that are not given are the last ones given for that viewport
+        if viewport in self._matrices:
+            self._model, self._view, self._proj = self._matrices[viewport]
         if model is not None:
             self._model = model
         if view is not None:
             self._view = view
         if proj is not None:
             self._proj = proj
+        self._matrices[viewport] = self._model, self._view, self._proj
 
         try:
             self._transform = (np.asarray(self._proj).reshape(4,4) @
-- 
2.43.0


From 18bc4850773dc97adade46bf006a92437bb13536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 51/82] fix: a canvas whose size is a measure could not be
 rendered without a target

---
 gsp_matplotlib/core/canvas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index 17ce1dd..3aa0f15 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -20,9 +20,9 @@ class Canvas(core.Canvas):
         super().__init__(width, height, dpi)
 
         if isinstance(width, transform.Transform):
-            width = width.evaluate(variables = { "dpi": dpi })
+            width = int(round(width.evaluate(variables = { "dpi": dpi })))
         if isinstance(height, transform.Transform):
-            height = height.evaluate(variables = { "dpi": dpi })
+            height = int(round(height.evaluate(variables = { "dpi": dpi })))
 
         self._width = width
         self._height = height
-- 
2.43.0


From cd4b550e37dde8840a228685d99ae434229668ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 52/82] fix: markers could not be rendered with a model matrix
 loaded from a file

---
 gsp_matplotlib/visual/markers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index ee69611..f6a1152 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -114,6 +114,7 @@ class Markers(visual.Markers):
         #  - A unique type of marker
         #  But then, we would still need to keep track of the
         #  different variables to check is anything has changed.
+        model = np.asarray(model).reshape(4,4)
         P = glm.to_vec3(glm.to_vec4(positions) @ model.T)
         self.generate_markers(P)
 
-- 
2.43.0


From 05c93b7b3aa11fc69b17e1dcf1d4d84db666a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 53/82] fix: operators could not be evaluated on GSP buffers

---
 gsp/transform/operator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 9a61786..ceff55f 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from . transform import Transform
 from gsp.io.command import command
@@ -125,11 +126,15 @@ class Operator(Transform):
             left = self._left.evaluate(variables)
         else:
             left = self._left
+            if isinstance(left, Buffer):
+                left = np.asarray(left)
 
         if isinstance(self._right, Transform):
             right = self._right.evaluate(variables)
         else:
             right = self._right
+            if isinstance(right, Buffer):
+                right = np.asarray(right)
 
         return left, right
 
-- 
2.43.0


From b6fcc0104e14e99963ac399f0bc0cfcbe586e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 54/82] fix: comparing two objects with different attributes
 raised

---
 gsp/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp/object.py b/gsp/object.py
index adced4a..a97fb2c 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -87,6 +87,8 @@ class Object:
     def __eq__(self, other):
         if not type(self) == type(other):
             return False
+        if vars(self).keys() != vars(other).keys():
+            return False
         keys = list(vars(self).keys())
         keys.remove("_id")
         for key in keys:
-- 
2.43.0


From 726c8005f39b1c45e5395474faef973a05413599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 55/82] fix: comparing two objects holding arrays raised

---
 gsp/object.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp/object.py b/gsp/object.py
index a97fb2c..450b730 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -7,6 +7,7 @@ The role of the Object class is to facilitate the writing of the reference
 implementation. It is *not* part of the protocol.
 """
 import itertools
+import numpy as np
 
 class OID(int):
     """
@@ -92,6 +93,10 @@ class Object:
         keys = list(vars(self).keys())
         keys.remove("_id")
         for key in keys:
-            if getattr(self, key) != getattr(other, key):
+            mine, theirs = getattr(self, key), getattr(other, key)
+            if isinstance(mine, np.ndarray) or isinstance(theirs, np.ndarray):
+                if not np.array_equal(mine, theirs):
+                    return False
+            elif mine != theirs:
                 return False
         return True
-- 
2.43.0


From a661129968b9aadba2316ef1ede6ce74d6e42d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 56/82] fix: scalar data types could not be converted to text

---
 gsp/io/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index d4f63d0..6d72b5d 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -119,7 +119,7 @@ def get_converter(value : object,
         return converter
 
     # Get converter from bases
-    for base in value.__class__.__bases__:
+    for base in value.__class__.__mro__[1:]:
         src_type = base.__name__
         converter = is_registered(src_type, dst_type)
         if converter:
-- 
2.43.0


From ebb02f6fd0f02a4ef73669be374183586e54e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 57/82] fix: a view of a tracked array was recorded as the
 buffer of the whole array

---
 gsp/io/command.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 9ecf81f..2dc1d65 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -314,6 +314,8 @@ def command(name=None):
                                 # else:
                                 # Delayed conversion
                                 parameters[key] = Converter(converter, value)
+                                # The closest base type wins
+                                break
 
                     if check:
                         continue
-- 
2.43.0


From 485b99acee326f3d1b3b6086cbb6009bc251e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 58/82] fix: copies of colormaps, outputs and accessors
 replayed without their parameters

---
 gsp/transform/accessor.py  |  3 +++
 gsp/transform/colormap.py  | 10 +++++-----
 gsp/transform/out.py       | 10 +++-------
 gsp/transform/transform.py |  9 ++++++++-
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 1d2bdd9..3427b09 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -33,6 +33,9 @@ class Accessor(Transform):
         transform._key = self._key
         return transform
 
+    def _parameters(self):
+        return { "key": self._key } if self.__class__ is Accessor else {}
+
     def evaluate(self, buffers=None):
         if self._next:
             buffer = self._next.evaluate(buffers)
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 4569767..15d52f1 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -60,12 +60,12 @@ class Colormap(Transform):
         Copy the transform
         """
 
-        transform = Transform.copy(self)
-        transform._colormap = self._colormap
-        transform._vmin = self._vmin
-        transform._vmax = self._vmax
-        return transform
+        return Transform.copy(self)
 
+    def _parameters(self):
+        return { "colormap": self._colormap,
+                 "vmin": self._vmin,
+                 "vmax": self._vmax }
 
     def evaluate(self, buffers : list):
         """
diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 1a1ba37..03e3e7e 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -34,14 +34,10 @@ class Out(Transform):
         Copy the transform
         """
 
-        transform = self.__class__()
-        transform.set_buffer(self._buffer)
-        transform.set_base(self.base)
-        transform.name = self.name
-        if self._next:
-            transform.set_next(self._next.copy())
-        return transform
+        return Transform.copy(self)
 
+    def _parameters(self):
+        return { "name": self.name }
 
     def evaluate(self, variables : dict):
         """
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 33a1630..0fcfff9 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -132,12 +132,19 @@ class Transform(Object):
         """
         return self.last.buffer is not None
 
+    def _parameters(self):
+        """
+        Parameters needed to create an identical transform
+        """
+
+        return {}
+
     def copy(self):
         """
         Copy the transform
         """
 
-        transform = self.__class__()
+        transform = self.__class__(**self._parameters())
         transform.set_buffer(self._buffer)
         transform.set_base(self.base)
         if self._next:
-- 
2.43.0


From 077931bbaa7d79315a8250eea259caac3e35dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 59/82] fix: comparing two visuals holding arrays raised

---
 gsp/object.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/gsp/object.py b/gsp/object.py
index 450b730..63242e4 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -36,6 +36,24 @@ class OID(int):
 
 
 
+def same(mine, theirs):
+    """
+    Compare two attribute values (that may hold arrays)
+    """
+
+    if mine is theirs:
+        return True
+    if isinstance(mine, np.ndarray) or isinstance(theirs, np.ndarray):
+        return np.array_equal(mine, theirs)
+    if isinstance(mine, dict) and isinstance(theirs, dict):
+        return (mine.keys() == theirs.keys() and
+                all(same(mine[key], theirs[key]) for key in mine.keys()))
+    if isinstance(mine, (list, tuple)) and type(mine) == type(theirs):
+        return (len(mine) == len(theirs) and
+                all(same(a, b) for a, b in zip(mine, theirs)))
+    return not mine != theirs
+
+
 class Object:
     """Generic object with a unique ID
 
@@ -93,10 +111,6 @@ class Object:
         keys = list(vars(self).keys())
         keys.remove("_id")
         for key in keys:
-            mine, theirs = getattr(self, key), getattr(other, key)
-            if isinstance(mine, np.ndarray) or isinstance(theirs, np.ndarray):
-                if not np.array_equal(mine, theirs):
-                    return False
-            elif mine != theirs:
+            if not same(getattr(self, key), getattr(other, key)):
                 return False
         return True
-- 
2.43.0


From 0e8d8afd7254820b51e9e286b8e311cef1556819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 60/82] fix: a measure of a tuple could not be recorded

---
 gsp_matplotlib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 12aff8f..28287f2 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -29,7 +29,7 @@ def ndarray_to_Matrix(obj):
     return Matrix(obj)
 
 
-@register("list", "Buffer")
+@register(["list", "tuple"], "Buffer")
 def list_to_Buffer(obj):
     # WARN: Do we need to keep track of obj/Buffer such as not create
     #       several buffers pointing at the same underlying object?
-- 
2.43.0


From 29c80a333d264ae3c318f18850c52696fe764449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 61/82] fix: sizes and line widths computed from a rendering
 output could not be drawn

---
 gsp_matplotlib/visual/markers.py  | 4 ++--
 gsp_matplotlib/visual/points.py   | 4 ++--
 gsp_matplotlib/visual/segments.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index f6a1152..6b32147 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -145,13 +145,13 @@ class Markers(visual.Markers):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes(np.full(len(positions), sizes))
 
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 7c6f598..dc9f032 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -87,13 +87,13 @@ class Points(visual.Points):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes(np.full(len(positions), sizes))
 
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 006e9e8..cf3d958 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -82,7 +82,7 @@ class Segments(visual.Segments):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
-- 
2.43.0


From 13f34748fafa1104349c306826187822c9fbee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 62/82] fix: marker angles computed from a rendering output
 were those of the previous render

---
 gsp_matplotlib/visual/markers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 6b32147..5d783ca 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -47,6 +47,7 @@ class Markers(visual.Markers):
                 angle = angles[i]
             except:
                 angle = angles
+            angle = np.ravel(angle)[0]
             mtype = Marker.path(mtype)
             marker = mpl.markers.MarkerStyle(mtype)
             rotation = mpl.transforms.Affine2D().rotate_deg(angle)
@@ -116,7 +117,6 @@ class Markers(visual.Markers):
         #  different variables to check is anything has changed.
         model = np.asarray(model).reshape(4,4)
         P = glm.to_vec3(glm.to_vec4(positions) @ model.T)
-        self.generate_markers(P)
 
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
@@ -126,6 +126,7 @@ class Markers(visual.Markers):
         sort_indices = np.argsort(positions[:,2])
 
         self.set_variable("screen[positions]", positions)
+        self.generate_markers(P)
 
         paths = [self.paths[i] for i in sort_indices]
         collection.set_paths(paths)
-- 
2.43.0


From 5ae7f904b7ce6b13f3531d4f6286a23168d18f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 63/82] fix: chaining a chained transform dropped the rest of
 its chain

---
 gsp/transform/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 0fcfff9..25b95fb 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -158,8 +158,9 @@ class Transform(Object):
 
         transform = self.copy()
         if isinstance(other, Transform):
-            transform.set_next(other.copy())
-            transform.set_buffer(None)
+            last = transform.last
+            last.set_next(other.copy())
+            last.set_buffer(None)
         elif isinstance(other, (Buffer, np.ndarray, float, int, tuple)):
             if self.bound:
                 raise ValueError("Transform is already bound")
-- 
2.43.0


From 003aef73ce6123d16432da0c2e7736780328a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 64/82] fix: a viewport ignored its aspect until the first
 resize

---
 gsp_matplotlib/core/viewport.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 55b224b..ada511d 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -33,9 +33,6 @@ class Viewport(core.Viewport):
         self._axes.patch.set_color(self._color)
         self._axes.autoscale(False)
 
-        self._axes.set_xlim(-1, 1)
-        self._axes.set_ylim(-1, 1)
-
         self._axes.get_xaxis().set_visible(False)
         self._axes.get_yaxis().set_visible(False)
         for position in ["top", "bottom", "left", "right"]:
-- 
2.43.0


From b6a2809ba5d72f84c0e1a2a42ca7429b0d0e68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 65/82] fix: components of a single vector could not be
 assigned together

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index 3eb6d82..45d09b1 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -43,8 +43,8 @@ class swizzle(tracked):
                     for index in indices:
                         self[..., index] = value
                     break
-                # Z.xy = np.ones(10)
-                elif len(self) == value.size: # shape[-1] == 1:
+                # Z.xy = np.ones(10) (a single vector has no such form)
+                elif self.ndim > 1 and len(self) == value.size: # shape[-1] == 1:
                     for index in indices:
                         self[..., index] = np.squeeze(value)
                     break
-- 
2.43.0


From 8b38629757e74a12e28df8573803c1b87ab686a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 66/82] fix: integer vectors with four components could not be
 converted to vec2

---
 gsp_matplotlib/glm/vec234.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/glm/vec234.py b/gsp_matplotlib/glm/vec234.py
index 82985c0..f4b50a9 100644
--- a/gsp_matplotlib/glm/vec234.py
+++ b/gsp_matplotlib/glm/vec234.py
@@ -61,13 +61,11 @@ def to_vec2(other, dtype  = None):
         return _V
     elif len(V.shape) == 2:
         _V = ndarray.vec2(len(V), dtype)
-        _V[...] = V[:,:2]
-        if V.shape[1] == 2:
-            return _V
-        elif V.shape[1] == 3:
+        if V.shape[1] == 2 or V.shape[1] == 3:
+            _V[...] = V[:,:2]
             return _V
         elif V.shape[1] == 4:
-            _V /= V[:,3, np.newaxis]
+            _V[...] = V[:,:2] / V[:,3, np.newaxis]
             return _V
 
     raise TypeError("Cannot convert %s to vec2" % other)
-- 
2.43.0


From 375e66c27127415e9d50e087acc2a461a88f491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 67/82] fix: strided slices and arrays of items of a ragged
 array included the items in between

---
 gsp_matplotlib/glm/ndarray/ragged.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 01fdeb7..be6d1ab 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -91,9 +91,19 @@ class ragged:
         self._items[0:, 1] += C
 
 
+    def _key(self, key):
+        """ Key as an item, a (non empty) slice of consecutive items or a
+            list of items """
+
+        if isinstance(key, np.ndarray) or (isinstance(key, slice) and
+                (key.step not in (None, 1) or not len(self._items[key]))):
+            return np.arange(self._count)[key].tolist()
+        return key
+
     def __getitem__(self, key):
         """ x.__getitem__(y) <==> x[y] """
 
+        key = self._key(key)
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
@@ -108,6 +118,7 @@ class ragged:
     def __setitem__(self, key, value):
         """ x.__setitem__(y, v) <==> x[y] = v"""
 
+        key = self._key(key)
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
-- 
2.43.0


From 0397ecf7e6a61b61d0e1b5fa1e89efd5eb43610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 68/82] fix: a ragged array could not be built from unsigned
 sizes

---
 gsp_matplotlib/glm/ndarray/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index be6d1ab..a911568 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -86,7 +86,7 @@ class ragged:
         self._size = len(data)
         self._count = count
         self._items = np.zeros((count, 2), int)
-        C = np.cumsum(itemsize)
+        C = np.cumsum(itemsize, dtype=int)
         self._items[1:, 0] += C[:-1]
         self._items[0:, 1] += C
 
-- 
2.43.0


From aeff7939168e8544ce4a58096e8c3f063d1224a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 69/82] fix: a buffer could not be updated from a typed or
 strided memory view

---
 gsp_matplotlib/core/buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index bb89b61..26322ce 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -35,6 +35,8 @@ class Buffer(core.Buffer):
                        data : memoryview | bytes):
         if isinstance(data, str):
             data = base64.b64decode(data)
+        elif isinstance(data, memoryview):
+            data = data.tobytes()
         array = self.__array__()
         # Memory the buffer was created from does not belong to the buffer
         if not array.flags.owndata:
-- 
2.43.0


From 2794cd84eca8eda4a13b1952b7633c7f5a21dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 70/82] fix: attributes given as lists were not drawn in the
 order of their items

---
 gsp/visual/visual.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 2ea0dd9..bea61c5 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -78,9 +78,12 @@ class Visual(Object):
             value = value.evaluate(self._in_variables | self._out_variables)
         elif isinstance(value, (Buffer, np.ndarray)):
             value = np.asanyarray(value)
-        elif isinstance(value, (List, list)):
-            return value
-        elif isinstance(value, (float, int, str, tuple)):
+        elif isinstance(value, (list, tuple)):
+            # Lists of indices may be ragged and a flat list may be a color
+            nested = any(hasattr(item, "__len__") for item in value)
+            if name == "indices" or (name.endswith("colors") and not nested):
+                return value
+        elif isinstance(value, (List, float, int, str)):
             return value
         elif value is None:
             return None
-- 
2.43.0


From dffc10e0fb3ea88fb0dafea0fae6f7ec211498d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 71/82] fix: sizes of paths and polygons overflowed the integer
 type they were given in

Adding unsigned 8-bit sizes gave wrong vertices as soon as there were more than 255 of them.
---
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/polygons.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index de927fd..b94d7ce 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -99,7 +99,7 @@ class Paths(visual.Paths):
             end = 0
             paths = []
             for size in indices:
-                end += size
+                end += int(size)
                 paths.append (positions[start:end])
                 start = end
 
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 0172577..4e7eec9 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -95,7 +95,7 @@ class Polygons(visual.Polygons):
             end = 0
             polygons = []
             for size in indices:
-                end += size
+                end += int(size)
                 polygons.append (positions[start:end])
                 start = end
 
-- 
2.43.0


From 1c6ee1fb189281e32d039a485e6af4f9d458f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 72/82] fix: a canvas could not be rendered after its figure
 was resized

---
 gsp_matplotlib/core/canvas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index 3aa0f15..b10d824 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -52,6 +52,8 @@ class Canvas(core.Canvas):
                 self._figure.savefig(output, format="raw")
                 output.seek(0)
                 data = np.frombuffer(output.getvalue(), dtype=np.uint8)
-            return data.reshape(self._height, self._width, -1)
+            # The figure may have been resized since the canvas was created
+            width, height = self._figure.canvas.get_width_height(physical=True)
+            return data.reshape(height, width, -1)
         else:
             self._figure.savefig(target, dpi=self._dpi)
-- 
2.43.0


From a9153e7d3e1806d452dd049228ab094385dc06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 73/82] fix: creating markers evaluated angles depending on a
 rendering not done yet

The output variables are uninitialised then, an infinite one raised an error. The
markers are generated when they are rendered.
---
 gsp_matplotlib/visual/markers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 5d783ca..d1f451e 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -27,8 +27,6 @@ class Markers(visual.Markers):
         super().__init__(positions, types, sizes, axis, angles,
                          fill_colors, line_colors, line_widths,
                          __no_command__ = True)
-        if not isinstance(positions, Transform):
-            self.generate_markers(positions)
 
     def generate_markers(self, positions):
         """ Generate path for markers at given positions."""
-- 
2.43.0


From a343b77f8663de01bb4a74c3dc899bc0a7c96aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 74/82] fix: components assigned from a view of the same array
 were read after being overwritten

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index 45d09b1..c555154 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -34,7 +34,8 @@ class swizzle(tracked):
 
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
-                value = np.asarray(value)
+                # The value may be (a view of) the array itself
+                value = np.array(value)
                 shape = value.shape
                 indices = [swizzle.index(c) for c in key]
 
-- 
2.43.0


From b058f168b5a2d280f4ad775cfa51f59e929df594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 75/82] fix: a text converts with its own converter when a
 wildcard one exists too

---
 gsp/io/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 6d72b5d..3c73e7f 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -102,7 +102,7 @@ def get_converter(value : object,
     if isinstance(value, type):
         src_type = value.__name__
     else:
-        if isinstance(value, str) and is_registered(value, dst_type):
+        if isinstance(value, str) and (value, dst_type) in converters:
             src_type = value
         else:
             src_type = type(value).__name__
-- 
2.43.0


From 0dd711cc1c46086620e4178c1a21fb1e24b50ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 76/82] fix: example recorder dedents blocks with blank lines
 and stops at their end

---
 gsp/io/mkdocs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gsp/io/mkdocs.py b/gsp/io/mkdocs.py
index 7dbe29a..64be4b9 100644
--- a/gsp/io/mkdocs.py
+++ b/gsp/io/mkdocs.py
@@ -36,14 +36,17 @@ class mkdocs():
         while True:
             next_line = linecache.getline(filename, line + i)
             next_line_indent = len(next_line) - len(next_line.lstrip())
+            if next_line == "":
+                break
+            if not next_line.strip(): # preserve blank lines
+                lines.append("\n")
+                i += 1
+                continue
             if indent == 0:
                 indent = next_line_indent
-            elif (next_line_indent < indent and len(next_line.strip()) > 0) or next_line == "":
+            elif next_line_indent < indent:
                 break
-            if next_line == "\n": # preserve newlines
-                lines.append(next_line)
-            else:
-                lines.append(next_line[indent:])
+            lines.append(next_line[indent:])
             i += 1
         self.code = lines
         self.dump()
-- 
2.43.0


From 83dddb4dfd2dd815c939617f2587e8bde322b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 77/82] fix: asking whether an expression with a number is
 bound raised

---
 gsp/transform/operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index ceff55f..fb6a219 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -47,7 +47,9 @@ class Operator(Transform):
         Indicate if this transform is bound
         """
 
-        return self.left.bound and self.right.bound
+        # Numbers and buffers need no binding
+        return all(operand.bound for operand in (self.left, self.right)
+                   if isinstance(operand, Transform))
 
     @property
     def operator(self):
-- 
2.43.0


From 616ca38f7128f5dce473dd700708b1d780b10056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 78/82] fix: a transform chained on a bound expression was not
 bound

---
 gsp/transform/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 25b95fb..1632eb5 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -130,7 +130,10 @@ class Transform(Object):
         """
         Indicate if this transform is bound
         """
-        return self.last.buffer is not None
+        last = self.last
+        if last is not self:
+            return last.bound
+        return self.buffer is not None
 
     def _parameters(self):
         """
-- 
2.43.0


From 8b71f248dfdc9b2cbc002338826efe48896278a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 79/82] fix: an array copied from a buffer or a list shared the
 memory of the buffer

---
 gsp_matplotlib/core/buffer.py | 4 +++-
 gsp_matplotlib/core/list.py   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 26322ce..e4307e3 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -58,7 +58,9 @@ class Buffer(core.Buffer):
                     self._array = self._array.reshape(self._count, -1)
             else:
                 self._array = np.empty(self._count, self._dtype)
-        return self._array if dtype is None else self._array.astype(dtype)
+        if dtype is None:
+            return self._array.copy() if copy else self._array
+        return self._array.astype(dtype)
 
     def __repr__(self):
         return f"Buffer({self._count}, {self._dtype})"
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index a81b5fc..4927e7e 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -18,7 +18,7 @@ class List(core.List):
         super().__init__(data, itemsizes, __no_command__ = True)
 
     def __array__(self, dtype=None, copy=None):
-        return self._data.__array__(dtype)
+        return self._data.__array__(dtype, copy)
 
     def __getitem__(self, index):
         """ Return the item at given index """
-- 
2.43.0


From 979fb93b2c6db71d68fedb4074474a7d1dccc8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 80/82] fix: a ragged array could not be converted to an array
 of another type

---
 gsp_matplotlib/glm/ndarray/ragged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index a911568..75926fa 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -167,5 +167,5 @@ class ragged:
         s += ']'
         return s
 
-    def __array__(self):
-        return self.data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self.data, dtype=dtype, copy=copy, subok=True)
-- 
2.43.0


From bd94506b4a11fb697fc44892f01bf2bea4c599f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 81/82] fix: segments were always drawn with round caps

---
 gsp_matplotlib/visual/segments.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index cf3d958..42742dc 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -41,7 +41,14 @@ class Segments(visual.Segments):
 
         # Create the collection if necessary
         if viewport not in self._viewports:
-            collection = LineCollection([], clip_on=True, snap=False, capstyle="round")
+            line_caps = self.get_variable("line_caps")
+            # All the lines of a collection have the same caps
+            if not isinstance(line_caps, int):
+                line_caps = LineCap.round
+            line_caps = { LineCap.butt:  "butt",
+                          LineCap.round: "round",
+                          LineCap.cap:   "projecting"}[line_caps]
+            collection = LineCollection([], clip_on=True, snap=False, capstyle=line_caps)
             self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
-- 
2.43.0


From 741e180b1bb6123d9a83725a2baf1ed6acfe2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 82/82] fix: a single color given as an array is not one color
 per item

The channels of a color given as an array of 4 (or 3) numbers were exchanged
when a visual had as many items as the color has channels.
---
 gsp/visual/visual.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index bea61c5..11fa1e0 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -88,7 +88,11 @@ class Visual(Object):
         elif value is None:
             return None
 
-        return np.atleast_1d(value)
+        value = np.atleast_1d(value)
+        # A flat array of numbers is a single color
+        if name.endswith("colors") and value.ndim == 1 and value.dtype.kind in "iuf":
+            return value.tolist()
+        return value
 
     @command()
     def render(self, viewport : Viewport,
-- 
2.43.0

