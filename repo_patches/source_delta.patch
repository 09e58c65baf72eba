From d10e4da89f5b83ce53f9814837140938f15b2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:38 +0000
Subject: [PATCH 01/58] fix: Transform/TransformData.invert must divide the
 centre by the scale

---
 src/gggears/gggears_base_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..e92ec4b 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -96,7 +96,7 @@ class TransformData:
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return TransformData(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -146,7 +146,7 @@ class Transform(TransformData):
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return Transform(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
-- 
2.43.0


From 1755e10bd66846ca272489ee27e7eda563df6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:38 +0000
Subject: [PATCH 02/58] fix: gear transform composition and inverse must
 account for the gear angle

---
 src/gggears/gggears_base_classes.py | 32 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index e92ec4b..625df5e 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -186,9 +186,11 @@ class GearTransformData(TransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
+            orient2 = self.orientation @ rot_z
             return GearTransformData(
-                center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center + orient2 @ other.center * self.scale,
+                orientation=orient2 @ other.orientation @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -199,11 +201,11 @@ class GearTransformData(TransformData):
 
     def invert(self):
         """Invert the transformation."""
-        inv_orient = self.orientation.transpose()
-        inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
+        rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        inv_orient = (self.orientation @ rot_z).transpose()
         return GearTransformData(
-            center=-inv_orient @ inv_angle @ self.center * self.scale,
-            orientation=inv_orient,
+            center=-inv_orient @ self.center / self.scale,
+            orientation=inv_orient @ rot_z,
             scale=1 / self.scale,
             angle=-self.angle,
         )
@@ -227,13 +229,11 @@ class GearTransform(GearTransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
+            orient2 = self.orientation @ rot_z
             return GearTransform(
-                center=self.center
-                + self.orientation
-                @ scp_Rotation.from_euler("z", self.angle).as_matrix()
-                @ other.center
-                * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center + orient2 @ other.center * self.scale,
+                orientation=orient2 @ other.orientation @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -244,11 +244,11 @@ class GearTransform(GearTransformData):
 
     def invert(self):
         """Invert the transformation."""
-        inv_orient = self.orientation
-        inv_angle = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        inv_orient = (self.orientation @ rot_z).transpose()
         return GearTransform(
-            center=-self.center @ inv_orient @ inv_angle / self.scale,
-            orientation=inv_orient.transpose(),
+            center=-inv_orient @ self.center / self.scale,
+            orientation=inv_orient @ rot_z,
             scale=1 / self.scale,
             angle=-self.angle,
         )
-- 
2.43.0


From 5fbb843499f404d49bd56c3c5c1ee9fbd53ea980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:59 +0000
Subject: [PATCH 03/58] fix: quadratic Bezier interpolation must pass through
 its middle point

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 6d3042c..a135b24 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -542,7 +542,7 @@ def calc_nurbezier_arc(p0, p2, center):
 
 
 def calc_quadratic_bezier_interp(p0, p1, p2):
-    return np.array([p0, (4 * p1 - p0 - p2), p2])
+    return np.array([p0, (4 * p1 - p0 - p2) / 2, p2])
 
 
 def xyz_to_spherical(v, center=ORIGIN):
-- 
2.43.0


From 1fc07f3b22fbbd843f7f604c21a962692e9cb920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 04/58] fix: a reversed curve must traverse the original with
 parameter 1-s

---
 src/gggears/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..01e6f33 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -201,6 +201,7 @@ class Curve:
         """Reverse the curve in place."""
         self.t_0, self.t_1 = self.t_1, self.t_0
         self.t2s_lookup["t"] = np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     def derivative(self, t, direction=0, n=1, delta=DELTA):
-- 
2.43.0


From f275fcddc87df558cffb6a898d05d1c35d74d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 05/58] fix: Curve.t2s must invert s2t on reversed curves too

---
 src/gggears/curve.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 01e6f33..07a5cb7 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -137,26 +137,30 @@ class Curve:
 
     def t2s(self, t):
         """Convert natural parameter t to length-proportional parameter s."""
-        retval = np.interp(t, self.t2s_lookup["t"], self.t2s_lookup["s"])
+        # natural parameter decreases along a reversed curve
+        sign = -1 if self.t_1 < self.t_0 else 1
+        retval = np.interp(
+            sign * t, sign * self.t2s_lookup["t"], self.t2s_lookup["s"]
+        )
         if np.ndim(t) > 0:
-            if any(t < self.t_0):
-                retval[t < self.t_0] = interpolate(
-                    t[t < self.t_0],
+            if any(sign * t < sign * self.t_0):
+                retval[sign * t < sign * self.t_0] = interpolate(
+                    t[sign * t < sign * self.t_0],
                     self.t2s_lookup["t"][0],
                     self.t2s_lookup["t"][1],
                     self.t2s_lookup["s"][0],
                     self.t2s_lookup["s"][1],
                 )
-            if any(t > self.t_1):
-                retval[t > self.t_1] = interpolate(
-                    t[t > self.t_1],
+            if any(sign * t > sign * self.t_1):
+                retval[sign * t > sign * self.t_1] = interpolate(
+                    t[sign * t > sign * self.t_1],
                     self.t2s_lookup["t"][-1],
                     self.t2s_lookup["t"][-2],
                     self.t2s_lookup["s"][-1],
                     self.t2s_lookup["s"][-2],
                 )
         else:
-            if t < self.t_0:
+            if sign * t < sign * self.t_0:
                 retval = interpolate(
                     t,
                     self.t2s_lookup["t"][0],
@@ -164,7 +168,7 @@ class Curve:
                     self.t2s_lookup["s"][0],
                     self.t2s_lookup["s"][1],
                 )
-            elif t > self.t_1:
+            elif sign * t > sign * self.t_1:
                 retval = interpolate(
                     t,
                     self.t2s_lookup["t"][-1],
-- 
2.43.0


From bed754d655762f00c1c09f2473f66a5aea972250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 06/58] fix: higher order Curve.derivative must differentiate
 the lower derivative

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 07a5cb7..56c579e 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -239,7 +239,10 @@ class Curve:
             return numeric_diff(self, t, direction, delta)
         else:
             return numeric_diff(
-                self.derivative(t, direction, n - 1, delta), t, direction, delta
+                lambda x: self.derivative(x, direction, n - 1, delta),
+                t,
+                direction,
+                delta,
             )
 
     def cut(self, t):
-- 
2.43.0


From 6673e856f2e5650196e15661285b5a591d6634c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 07/58] fix: a curve divided by a number must span the whole
 curve

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 56c579e..dbc8bc7 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -333,8 +333,8 @@ class Curve:
             return Curve(
                 lambda t: self(t) / other,
                 active=self.active,
-                t0=self.t_0,
-                t1=self.t_1,
+                t0=0,
+                t1=1,
                 params={},
                 enable_vectorize=self.enable_vectorize,
             )
-- 
2.43.0


From 52af8e0d9f08a1551e6e0c60cde5d4f411eda878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 08/58] fix: CurveChain.reverse must return the chain like
 Curve.reverse

---
 src/gggears/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index dbc8bc7..5cf7e4d 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -551,6 +551,7 @@ class CurveChain(Curve):
         self.curves.reverse()
         for curve in self.curves:
             curve.reverse()
+        return self
 
     def set_start_and_end_on(self, s0, s1, preserve_inactive_curves=False):
         """Set the start and end of the chain in length-proportional parameter s.
-- 
2.43.0


From 0412e6849ecd37ed3fae90333d12c9c8425e0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 09/58] fix: CurveChain.set_start_and_end_on must read both
 ends on the untrimmed chain

---
 src/gggears/curve.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 5cf7e4d..cb1f92e 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -567,23 +567,20 @@ class CurveChain(Curve):
             the chain, with active=False status.
             If False, curves outside of the range get removed.
         """
-        idx, s2 = self.get_s_index(s0)
-        if preserve_inactive_curves:
-            for curve in self.curves[:idx]:
-                curve.active = False
-            self.curves[idx].set_start_on(s2)
+        # both ends refer to the chain as it is before trimming
+        idx0, s2_0 = self.get_s_index(s0)
+        idx1, s2_1 = self.get_s_index(s1)
+        if idx0 == idx1:
+            self.curves[idx0].set_start_and_end_on(s2_0, s2_1)
         else:
-            self.curves = self.curves[idx:]
-            self.curves[0].set_start_on(s2)
+            self.curves[idx0].set_start_on(s2_0)
+            self.curves[idx1].set_end_on(s2_1)
 
-        idx, s2 = self.get_s_index(s1)
         if preserve_inactive_curves:
-            for curve in self.curves[idx + 1 :]:
+            for curve in self.curves[:idx0] + self.curves[idx1 + 1 :]:
                 curve.active = False
-            self.curves[idx].set_end_on(s2)
         else:
-            self.curves = self.curves[: idx + 1]
-            self.curves[-1].set_end_on(s2)
+            self.curves = self.curves[idx0 : idx1 + 1]
         self.update_lengths()
 
     def set_start_on(self, s0, preserve_inactive_curves=False):
-- 
2.43.0


From 9f906c6d61d325843f22ea95337bfb46c87aac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 10/58] fix: length of an ArcCurve must follow trimming and be
 non-negative

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index cb1f92e..3ef6d9c 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1142,7 +1142,7 @@ class ArcCurve(Curve):
         return points
 
     def update_lengths(self):
-        self.length = self.radius * self.angle
+        self.length = np.abs(self.radius * self.angle * (self.t_1 - self.t_0))
         self.t2s_lookup["s"] = np.array([0, 1])
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
-- 
2.43.0


From 4b89974b5cdd108f1fc41de68a4c5e6aa5cbacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 11/58] fix: NurbCurve.reverse must keep the trimmed range and
 length parametrisation

---
 src/gggears/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 3ef6d9c..7f54553 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1550,6 +1550,9 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        self.t_0, self.t_1 = 1 - self.t_1, 1 - self.t_0
+        if self.active:
+            self.update_lengths()
         return self
 
     @property
-- 
2.43.0


From f1ef947e899eaa248ab3dec9671bea8357a031de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 12/58] fix: deleting a chain item must remove the curve

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 7f54553..d13e5a4 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -512,7 +512,7 @@ class CurveChain(Curve):
         self.curves[index] = value
 
     def __delitem__(self, index):
-        self.curves[index] = []
+        del self.curves[index]
 
     def __iter__(self):
         return iter(self.curves)
-- 
2.43.0


From dfc4edfbae73be832a7390a72adf5bc3f1bc81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:06 +0000
Subject: [PATCH 13/58] fix: an ArcCurve must evaluate arrays of parameters

---
 src/gggears/curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index d13e5a4..de764ec 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1137,7 +1137,11 @@ class ArcCurve(Curve):
         ).as_matrix()
 
     def arcfunc(self, t):
-        rot_arc = scp_Rotation.from_euler("z", self._angle * t).as_matrix()
+        angles = self._angle * t
+        if np.ndim(angles) > 0:
+            # one single-axis rotation per row
+            angles = angles[:, np.newaxis]
+        rot_arc = scp_Rotation.from_euler("z", angles).as_matrix()
         points = self._rotmat @ rot_arc @ (RIGHT * self._radius) + self._center
         return points
 
-- 
2.43.0


From 458f135fb7b293068e13069814008e16eb373ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:06 +0000
Subject: [PATCH 14/58] fix: TransformedCurve must accept transform parameters

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index de764ec..dcf6576 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1486,7 +1486,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            lambda t, **params: self.apply_transform(self.target_curve(t)),
             active=self.target_curve.active,
             t0=0,
             t1=1,
-- 
2.43.0


From 1a2985df4b405866d6b852ea6dc2870ae8e3e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 15/58] fix: flat spherical involute must keep the z offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index a135b24..ab6d2b6 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -157,7 +157,7 @@ def involute_sphere(t, r=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return involute_circle(t, r, angle, v_offs)
+        return involute_circle(t, r, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", angles=t + angle)
 
-- 
2.43.0


From c8be84e2860f937bab81c0124b98abf53783be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 16/58] fix: flat conic cycloid must revert to the circle
 cycloid

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index ab6d2b6..7eac906 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -227,7 +227,7 @@ def cycloid_cone(t, rb=1, rc=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return cycloid_circle(t, r, angle, v_offs)
+        return cycloid_circle(t, rb, rc, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", t + angle)
 
-- 
2.43.0


From 459f93c866e25ad1f36028e56c373eeebaaa2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 17/58] fix: octoid must apply the z offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 7eac906..3ff6820 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -676,4 +676,4 @@ def octoid(
     rot = scp_Rotation.from_euler("yz", angles=[PI, PI / 2 + angle])
     zshift = np.sqrt(sphere_rad**2 - base_rad**2)
     v = rot.apply(v)
-    return v + zshift * OUT
+    return v + (zshift + z_offs) * OUT
-- 
2.43.0


From e198a16d6c123d432933e6dea56b94148322fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:17 +0000
Subject: [PATCH 18/58] fix: a copied curve must read its own parameters, not
 the original's

---
 src/gggears/curve.py | 98 +++++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index dcf6576..5cd1f6a 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -330,12 +330,16 @@ class Curve:
     def __truediv__(self, other):
         """Divide the curve by a scalar. Output vectors are divided."""
         if isinstance(other, (int, float)):
+
+            def div_func(t, curve=self, val=other):
+                return curve(t) / val
+
             return Curve(
-                lambda t: self(t) / other,
+                div_func,
                 active=self.active,
                 t0=0,
                 t1=1,
-                params={},
+                params={"curve": self, "val": other},
                 enable_vectorize=self.enable_vectorize,
             )
         else:
@@ -1344,9 +1348,7 @@ class InvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1354,6 +1356,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1380,14 +1387,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1395,6 +1395,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1436,21 +1446,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1486,7 +1499,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t, **params: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1494,6 +1507,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t, **params):
+        return self.apply_transform(self.target_curve(t))
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1504,20 +1520,19 @@ class MirroredCurve(TransformedCurve):
     def __init__(self, curve: Curve, plane_normal=RIGHT, center=ORIGIN):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
+        super().__init__(self.mirror_func, curve)
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
-
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1527,14 +1542,11 @@ class RotatedCurve(TransformedCurve):
         self.axis = normalize_vector(axis)
         self.angle = angle
         self.center = center
+        super().__init__(self.rotate_func, curve)
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
-
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From f570292c553866631c5c908a8db6a35b0c4cfc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:39 +0000
Subject: [PATCH 19/58] fix: NURBS conversion of a transformed curve must
 respect its trimming and leave its source alone

---
 src/gggears/curve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 5cd1f6a..f977ed2 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -934,7 +934,14 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             return input_curve
         elif isinstance(input_curve, TransformedCurve):
             transform = input_curve.transform_method
-            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
+            # copy: the conversion must leave the target curve as it is
+            target_curve = input_curve.target_curve.copy()
+            t_0, t_1 = input_curve.t_0, input_curve.t_1
+            if t_0 != 0 or t_1 != 1:
+                target_curve.set_start_and_end_on(min(t_0, t_1), max(t_0, t_1))
+                if t_1 < t_0:
+                    target_curve.reverse()
+            convert = convert_curve_nurbezier(target_curve, **kwargs)
             convert.apply_transform(transform)
             return convert
         elif isinstance(input_curve, LineCurve):
-- 
2.43.0


From 7878cdad31f588654440b786039aedfeab56779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:09 +0000
Subject: [PATCH 20/58] fix: lengths of NURB curves must follow changes of
 their control points

---
 src/gggears/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index f977ed2..bd315d0 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1584,6 +1584,8 @@ class NurbCurve(Curve):
 
     def apply_transform(self, transform):
         self.points = transform(self.points)
+        if self.active:
+            self.update_lengths()
         return self
 
 
@@ -1613,6 +1615,7 @@ class NURBSCurve(CurveChain):
             # knots start with 0 which is the first point
             idx = self.knots[k]
             curve.points = newpoints[idx : idx + curve.n_points]
+        self.update_lengths()
 
     @property
     def weights(self):
@@ -1642,6 +1645,7 @@ class NURBSCurve(CurveChain):
             self.curves[0].points[0] = midpoints
             self.curves[-1].weights[-1] = midweights
             self.curves[0].weights[0] = midweights
+        self.update_lengths()
 
     def update_inactive_continuity(self):
         for k in range(len(self.curves)):
-- 
2.43.0


From e7dadb86f4cd51a5f8fd7e1c46dbeb8c04c903f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 21/58] fix: cone_angle_from_teeth must share the axis angle in
 the ratio of the teeth

---
 src/gggears/gearmath.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..6ff9fc3 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -26,12 +26,11 @@ def cone_angle_from_teeth(
     np.ndarray
         Array containing the cone angles (in radians) for gear 1 and gear 2.
     """
-    cosfi = np.cos(axis_angle)
     a = float(num_teeth_1)
     b = float(num_teeth_2)
-    e = np.sqrt((-(b**2) - 2 * a * b * cosfi - a**2 * cosfi) / (cosfi - 1))
-    gamma2 = np.arctan(e / a)
-    gamma1 = np.pi - axis_angle - gamma2
+    # common apex: gamma1 + gamma2 = axis_angle, sin(gamma1) / sin(gamma2) = a / b
+    gamma1 = np.arctan2(a * np.sin(axis_angle), b + a * np.cos(axis_angle))
+    gamma2 = axis_angle - gamma1
     return np.array((gamma1 * 2, gamma2 * 2))
 
 
-- 
2.43.0


From a33b659a8158b940953b73b6022ab79650228763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 22/58] fix: backlash_from_ax_distance must invert
 calc_involute_mesh_distance

---
 src/gggears/gearmath.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 6ff9fc3..e611af8 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -139,19 +139,18 @@ def backlash_from_ax_distance(
         Backlash between the two gears.
     """
     if inside_ring:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (-angle_base_2)
-        a = np.arccos((r_base_2 - r_base_1) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_2 - r_base_1) = 0
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_2 - r_base_1)
+        d1 = r_base_1 * np.abs(angle_base_1)
+        d2 = r_base_2 * np.abs(angle_base_2)
+        a = np.arccos(np.abs((r_base_2 - r_base_1) / Distance))
+        # np.tan(a) - a = (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        bl_sign = np.sign(d2 - d1)
+        backlash = 2 * bl_sign * (d2 - d1 - (np.tan(a) - a) * (r_base_2 - r_base_1))
     else:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (pitch_angle_2 / 2 + angle_base_2)
+        d1 = r_base_1 * angle_base_1
+        d2 = r_base_2 * (pitch_angle_2 / 2 - angle_base_2)
         a = np.arccos((r_base_1 + r_base_2) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_1 + r_base_2) = 0
-        # (d2 - d1 - backlash) / (r_base_1 + r_base_2) = -np.tan(a) + a
-        # (d2 - d1 - backlash) = ( -np.tan(a) + a) * (r_base_1 + r_base_2)
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_1 + r_base_2)
+        # np.tan(a) - a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        backlash = 2 * (d2 - d1 + (np.tan(a) - a) * (r_base_1 + r_base_2))
     return backlash
 
 
-- 
2.43.0


From 93b07f8eabd3f12348aa642999d7dd1d02a3459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 23/58] fix: the mesh distance of a ring gear must not depend
 on which gear is named first

---
 src/gggears/gearmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index e611af8..6e6de8c 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -83,7 +83,7 @@ def calc_involute_mesh_distance(
             + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
             0,
         )
-        Dist = (r_base_2 - r_base_1) / np.cos(sol.x[0])
+        Dist = np.abs(r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
 
         # d1 = r_base_1 * (-angle_base_1)
-- 
2.43.0


From ed748bb69c29117d95f1840cd68fc5c9b5f40aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 24/58] fix: a bevel ring gear must be placed towards the
 target direction

---
 src/gggears/gearmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 6e6de8c..2a05c4f 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -341,7 +341,7 @@ def calc_mesh_orientation(
         if inside_ring_2:
             angle_ref = gamma_2 - gamma_1 + offset / R
         elif inside_ring_1:
-            angle_ref = gamma_2 - gamma_1 - offset / R
+            angle_ref = gamma_1 - gamma_2 + offset / R
         else:
             angle_ref = gamma_1 + gamma_2 + offset / R
         rot_ax = normalize_vector(np.cross(target_dir_norm, gear2.z_axis))
@@ -392,7 +392,7 @@ def calc_bevel_gear_placement_vector(
     if inside_ring_2:
         angle_ref = gamma_2 - gamma_1 + offset / R
     elif inside_ring_1:
-        angle_ref = gamma_2 - gamma_1 - offset / R
+        angle_ref = gamma_1 - gamma_2 + offset / R
     else:
         angle_ref = gamma_1 + gamma_2 + offset / R
     rot_ax = normalize_vector(np.cross(target_dir_norm, cone_data_2.transform.z_axis))
-- 
2.43.0


From 25e52879bd412714f4bc5315afa86b3b87360659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 25/58] fix: adapting cycloid radii must not undo the placement
 of the gears

---
 src/gggears/gggears_wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..16a2691 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1905,8 +1905,13 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
+        # the gears are regenerated but stay where they are
+        transform_self = self.gearcore.transform
+        transform_other = other.gearcore.transform
         self.calc_params()
         other.calc_params()
+        self.gearcore.transform = transform_self
+        other.gearcore.transform = transform_other
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From aa2565c0670eb40968ce06734e0be7381f6856bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 26/58] fix: HelicalGear.mesh_to must accept backlash and
 angle_bias

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 16a2691..7395fd9 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1163,9 +1163,9 @@ class HelicalGear(InvoluteGear):
         """Beta = helix angle of the gear."""
         return self.helix_angle
 
-    def mesh_to(self, other, target_dir=RIGHT):
+    def mesh_to(self, other, target_dir=RIGHT, backlash=0.0, angle_bias=0.0):
         # basic meshing
-        super().mesh_to(other, target_dir)
+        super().mesh_to(other, target_dir, backlash, angle_bias)
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
         angle_axis = self.beta + other.beta
-- 
2.43.0


From 7711658a370b1996e46586a5b337fa7c5f33c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:46 +0000
Subject: [PATCH 27/58] fix: core bevel meshing must use the placed cones

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..d7b0b12 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1031,8 +1031,8 @@ class Gear:
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-                self.cone,
-                other.cone,
+                self.cone_at_z(0),
+                other.cone_at_z(0),
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
-- 
2.43.0


From 1e8ba486dad2939b67424e5abf2ba54a64ad3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:10 +0000
Subject: [PATCH 28/58] fix: the mesh distance must be solved away from the
 flat point of the involute function

---
 src/gggears/gearmath.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 2a05c4f..4b8f629 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -77,11 +77,11 @@ def calc_involute_mesh_distance(
         d1 = r_base_1 * np.abs(angle_base_1)
         d2 = r_base_2 * np.abs(angle_base_2)
         bl_sign = np.sign(d2 - d1)
+        inv_a = (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        # tan(a) - a is flat at 0, so start from an approximate inverse
         sol = root(
-            lambda a: np.tan(a)
-            - a
-            + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
-            0,
+            lambda a: np.tan(a) - a + inv_a,
+            -np.arctan(np.cbrt(3 * inv_a)),
         )
         Dist = np.abs(r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
@@ -94,9 +94,11 @@ def calc_involute_mesh_distance(
         # )
         d1 = r_base_1 * ((angle_base_1))
         d2 = r_base_2 * (pitch_angle_2 / 2 - (angle_base_2))
+        inv_a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        # tan(a) - a is flat at 0, so start from an approximate inverse
         sol = root(
-            lambda a: a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2),
-            0.0,
+            lambda a: a - np.tan(a) + inv_a,
+            np.arctan(np.cbrt(3 * inv_a)),
         )
         Dist = (r_base_1 + r_base_2) / np.cos(sol.x[0])
 
-- 
2.43.0


From 1fc77e75e478f8d8928bc39b883304d9fd5cb838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:08 +0000
Subject: [PATCH 29/58] fix: a helical gear in a same-handed helical ring must
 keep parallel axes

---
 src/gggears/gggears_wrapper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 7395fd9..c811d49 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1168,7 +1168,13 @@ class HelicalGear(InvoluteGear):
         super().mesh_to(other, target_dir, backlash, angle_bias)
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
-        angle_axis = self.beta + other.beta
+        if other.inside_teeth:
+            # internal meshing: same-handed helices run parallel
+            angle_axis = other.beta - self.beta
+        elif self.inside_teeth:
+            angle_axis = self.beta - other.beta
+        else:
+            angle_axis = self.beta + other.beta
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
         self.gearcore.transform.orientation = (
             rot.as_matrix() @ self.gearcore.transform.orientation
-- 
2.43.0


From 89933bd324654cdcf333ef9d2477f5a061f0ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 30/58] fix: crowning must be symmetric about the middle of the
 gear for any module and anchor

---
 src/gggears/gggears_wrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c811d49..46e5281 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -495,10 +495,14 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        # height and mid-height with module 1
+        z_h = self.inputparam.height / self.inputparam.module
+        z_mid = z_h * (0.5 - self.inputparam.z_anchor)
+
         def crowning_func(z, offset=0):
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - ((z - z_mid) * 2 / z_h) ** 2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -558,7 +562,6 @@ class InvoluteGear(GearInfoMixin):
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
                     cone_angle=self.inputparam.cone_angle,
                 )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
@@ -1693,10 +1696,14 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        # height and mid-height with module 1
+        z_h = self.inputparam.height / self.inputparam.module
+        z_mid = z_h * (0.5 - self.inputparam.z_anchor)
+
         def crowning_func(z, offset=0):
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - ((z - z_mid) * 2 / z_h) ** 2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -1727,7 +1734,6 @@ class CycloidGear(GearInfoMixin):
             rc_in_coeff=self.inputparam.inside_cycloid_coefficient,
             rc_out_coeff=self.inputparam.outside_cycloid_coefficient,
         )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
-- 
2.43.0


From 37d35bff9c168191183c803d28f486aec0eb5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 31/58] fix: center_spherical must not apply the placement
 twice

---
 src/gggears/gggears_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 46e5281..fa414a9 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -90,8 +90,7 @@ class GearInfoMixin:
         """Center of the gear-cone for bevel gears.
 
         Spherical refers to the spherical gear-boundary curves."""
-        center_sph = self.cone_data.center / self.module
-        return self.gearcore.transform(center_sph)
+        return self.cone_data.center
 
     def center_transform_at_z(self, z) -> GearTransform:
         """Returns the transform-data that represents the center point of a gear-slice
-- 
2.43.0


From ab4b12390fbe79e67cc083ad57a05a2e6bcccf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 32/58] fix: z_height must not depend on where the gear is
 placed

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index fa414a9..c057c34 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -188,11 +188,11 @@ class GearInfoMixin:
         # the height parameter is rather the width of the gear teeth,
         # which is the height for cylindrical gears but not for bevel gears
         # that is why it is reverse engineered from the shape recipe
-        z0, z1 = self.gearcore.z_vals[1], self.gearcore.z_vals[0]
+        z0, z1 = self.gearcore.z_vals[-1], self.gearcore.z_vals[0]
         c0, c1 = self.gearcore.shape_recipe.transform.center(
             z0
         ), self.gearcore.shape_recipe.transform.center(z1)
-        return np.linalg.norm((self.gearcore.transform(c0 - c1)))
+        return np.linalg.norm(c0 - c1) * self.gearcore.transform.scale
 
     def radii_data_gen(self, z) -> GearRefCircles:
         """Generates the reference circles of the gear at a given z-value."""
-- 
2.43.0


From 459006e892624200b26d583ddd4aca65a4dd6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 33/58] fix: height ratio 1 must refer to the top of
 herringbone gears too

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c057c34..41aba71 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -232,7 +232,7 @@ class GearInfoMixin:
         return self.radii_data_gen(self.gearcore.z_vals[-1])
 
     def proportion_to_z(self, prop):
-        return prop * self.gearcore.z_vals[1] + (1 - prop) * self.gearcore.z_vals[0]
+        return prop * self.gearcore.z_vals[-1] + (1 - prop) * self.gearcore.z_vals[0]
 
     def p2z(self, prop):
         return self.proportion_to_z(prop)
@@ -474,7 +474,7 @@ class InvoluteGear(GearInfoMixin):
             Ratio of the height of the gear where the slice should be taken.
             0 means at the bottom, 1 at the top. Default is 0.
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.p2z(z_ratio)
         r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
@@ -736,7 +736,7 @@ class InvoluteGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.p2z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
@@ -1937,7 +1937,7 @@ class CycloidGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.p2z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
-- 
2.43.0


From f210c143072ada1e124dcb1af7a95d84b6b79c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 34/58] fix: non-undercut bevel teeth must follow the dedendum
 coefficient

---
 src/gggears/gggears_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 41aba71..fa66252 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -559,6 +559,7 @@ class InvoluteGear(GearInfoMixin):
                     pressure_angle=self.inputparam.pressure_angle,
                     pitch_radius=rp_ref,
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
+                    ref_limits=limits,
                     cone_angle=self.inputparam.cone_angle,
                 )
         self.gearcore = Gear(
-- 
2.43.0


From 2bd964c013b34013eb1f15c8d8d7edce505e308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 35/58] fix: undercut teeth must fall back to the default
 limits

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9f55314..e40ca42 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -141,7 +141,8 @@ class InvoluteUndercutTooth(InvoluteTooth):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.CurveChain:
@@ -281,7 +282,8 @@ class OctoidUndercutTooth(GearToothConicGenerator):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.Curve:
-- 
2.43.0


From 9c2f3cf79f2c14c7ccdaac8c4a9e265cd91d8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 36/58] fix: a negative tooth number must make a cycloid ring
 gear

---
 src/gggears/gggears_wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index fa66252..8038eeb 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1662,6 +1662,10 @@ class CycloidGear(GearInfoMixin):
             inside_teeth=inside_teeth,
             z_anchor=z_anchor,
         )
+        if self.inputparam.number_of_teeth < 0:
+            self.inputparam.number_of_teeth = -number_of_teeth
+            self.inputparam.inside_teeth = not self.inputparam.inside_teeth
+
         self.builder: GearBuilder = None
         self.gearcore: Gear = None
         self.calc_params()
-- 
2.43.0


From 1a3334a787c98e2cb4956b74548436e848b104fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 37/58] fix: generating boundary edges must not turn the gear

---
 src/gggears/gggears_build123d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..e87fcd0 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -524,6 +524,9 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    else:
+        # the angle is advanced below, the transform of the caller must stay
+        transform = copy.copy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From f3a31099bd33b0448bd977b6eea78cc0b0ae2ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:25 +0000
Subject: [PATCH 38/58] fix: undercut bevel teeth without root extension must
 be generated

---
 src/gggears/gearteeth.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index e40ca42..2bb3903 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -550,8 +550,11 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
-    ps = tooth_curve.get_length_portions()
-    if sol.x[0] < ps[1]:
+    # a tooth curve that is a single curve has no extension
+    if (
+        isinstance(tooth_curve, crv.CurveChain)
+        and sol.x[0] < tooth_curve.get_length_portions()[1]
+    ):
         # undercut intersecting the involute-extension line is unlikely,
         # try again with a different guess
         sol = crv.find_curve_intersect(
-- 
2.43.0


From d0f92a596cda5573c39933f3cde65d7dd8391117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 39/58] fix: the closed tooth outlines of ring-type gears must
 join up

---
 src/gggears/gggears_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index d7b0b12..d3fc3bd 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -411,7 +411,7 @@ class GearRefProfileExtended(GearRefProfile):
             ),
             self.rd_curve,
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_connector.copy().reverse(),
         )
 
     @property
@@ -420,11 +420,11 @@ class GearRefProfileExtended(GearRefProfile):
         inside) ring."""
         return crv.CurveChain(
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_curve,
             self.tooth_curve_mirror,
-            self.ro_connector_2,
+            self.ro_connector_2.copy().reverse(),
             self.ro_curve_tooth.copy().reverse(),
-            self.ro_connector_1.copy().reverse(),
+            self.ro_connector_1,
         )
 
     @classmethod
-- 
2.43.0


From 2e284c3fa0958a01dc1ae91c46c9dd32fb0bc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 40/58] fix: tip connectors of pointed teeth must start at the
 tooth tip

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index d3fc3bd..d1f3833 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -669,8 +669,8 @@ def generate_profile_extensions(
     )
 
     ra_connector = crv.ArcCurve.from_2_point_center(
-        p0=rotate_vector(profile.ra_curve(1), -profile.pitch_angle),
-        p1=profile.ra_curve(0),
+        p0=rotate_vector(profile.tooth_curve_mirror(0), -profile.pitch_angle),
+        p1=profile.tooth_curve(1),
         center=profile.ra_curve.center,
     )
 
-- 
2.43.0


From f7e9337ec7cc235a0d008f08a2aa7588123cb2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 41/58] fix: the line of action of tilted gears must lie in
 their plane

---
 src/gggears/gggears_wrapper.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 8038eeb..9370fce 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1987,6 +1987,12 @@ class LineOfAction:
         center1 = self.gear1.center_point_at_z(self.gear1.p2z(self.z_ratio))
         center2 = self.gear2.center_point_at_z(self.gear2.p2z(self.z_ratio))
 
+        # the line lies in the plane of the gears, which may be tilted
+        axis = self.gear1.gearcore.transform.z_axis
+
+        def rotate_in_plane(v, angle):
+            return scp_Rotation.from_rotvec(angle * axis).apply(v)
+
         def mirror_diffline(p):
             p1 = p - center1
             p_norm = p1 - np.dot(p1, diff_vector_unit) * diff_vector_unit
@@ -1999,9 +2005,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear2.addendum_radius**2 - rb2**2)
-            startpoint1 = center2 + rotate_vector(-diff_vector_unit, alpha) * rb2
+            startpoint1 = center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2
             endpoint1 = (
-                startpoint1 + rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 + rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2015,9 +2021,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear1.addendum_radius**2 - rb1**2)
-            startpoint1 = center1 + rotate_vector(-diff_vector_unit, alpha) * rb1
+            startpoint1 = center1 + rotate_in_plane(-diff_vector_unit, alpha) * rb1
             endpoint1 = (
-                startpoint1 - rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 - rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2031,12 +2037,12 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb1 + rb2) / distance)
             line1 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2,
             )
             line2 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, -alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, -alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, -alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, -alpha) * rb2,
             )
             return line1, line2
 
-- 
2.43.0


From a8ff99b0a5d98b374d168c8d7817c24450449d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:52 +0000
Subject: [PATCH 42/58] fix: transforming a trimmed line or arc must transform
 the trimmed curve

---
 src/gggears/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index bd315d0..04f9ea8 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1115,8 +1115,8 @@ class LineCurve(Curve):
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
     def transform(self, transform: callable) -> "LineCurve":
-        p0 = transform(self.p0)
-        p1 = transform(self.p1)
+        p0 = transform(self(0))
+        p1 = transform(self(1))
         return LineCurve(p0, p1, active=self.active)
 
 
@@ -1331,8 +1331,9 @@ class ArcCurve(Curve):
         center0 = transform(self._center)
         center2 = transform(self.center + self.axis)
         axis2 = normalize_vector(center2 - center0)
+        angle = self.angle * (self.t_1 - self.t_0)
         return ArcCurve.from_point_center_angle(
-            p0, center0, self.angle, axis2, active=self.active
+            p0, center0, angle, axis2, active=self.active
         )
 
 
-- 
2.43.0


From 731369de492bea14f697a84168093a3fd5f62862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:52 +0000
Subject: [PATCH 43/58] fix: the NURBS conversion of an arc must go by its
 trimmed extent

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 04f9ea8..42feaa3 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -948,7 +948,7 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             bz_points = np.array([input_curve(0), input_curve(1)])
             bz_weights = np.ones((2))
         elif isinstance(input_curve, ArcCurve):
-            if abs(input_curve.angle) < PI:
+            if abs(input_curve.angle * (input_curve.t_1 - input_curve.t_0)) < PI:
                 bz_points, bz_weights = calc_nurbezier_arc(
                     input_curve(0), input_curve(1), input_curve.center
                 )
-- 
2.43.0


From b1dba2878f89d0cb1f5c031aa4d781dd87de88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:52 +0000
Subject: [PATCH 44/58] fix: trimmed arcs and lines must be converted to the
 edges they cover

---
 src/gggears/gggears_build123d.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index e87fcd0..592ec0c 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -551,27 +551,20 @@ def generate_boundary_edges(
 
 def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
     """Converts a gggears ArcCurve to a build123d Edge object."""
-    if (arc.t_0, arc.t_1) != (0, 1):
-        # arc can be extended, better make a new one
-        arc2 = crv.ArcCurve.from_2_point_center(arc.p0, arc.p1, arc.center)
-    else:
-        arc2 = arc
-
     loc = bd.Location(
-        arc2.center,
-        [arc2.roll * 180 / PI, arc2.pitch * 180 / PI, arc2.yaw * 180 / PI],
+        arc.center,
+        [arc.roll * 180 / PI, arc.pitch * 180 / PI, arc.yaw * 180 / PI],
         bd.Intrinsic.XYZ,
     )
 
-    if arc2.angle < 0:
-        start = arc2.angle * 180 / PI
-        end = 0
-    else:
-        start = 0
-        end = arc2.angle * 180 / PI
+    # the arc can be trimmed or extended
+    angle_0 = arc.angle * arc.t_0 * 180 / PI
+    angle_1 = arc.angle * arc.t_1 * 180 / PI
+    start = min(angle_0, angle_1)
+    end = max(angle_0, angle_1)
 
     bd_arc = bd.Edge.make_circle(
-        radius=arc2.radius,
+        radius=arc.radius,
         plane=bd.Plane(loc),
         start_angle=start,
         end_angle=end,
@@ -581,7 +574,7 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
 
 def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
     """Converts a gggears LineCurve to a build123d Edge object."""
-    return bd.Edge.make_line(np2v(line.p0), np2v(line.p1))
+    return bd.Edge.make_line(np2v(line(0)), np2v(line(1)))
 
 
 def curve_to_edges(curve: crv.Curve):
-- 
2.43.0


From fe83cf20962e59406fe2739015b115faa150a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:52 +0000
Subject: [PATCH 45/58] fix: edges of a transformed curve must respect its
 trimming

---
 src/gggears/gggears_build123d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 592ec0c..ab108e3 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -587,8 +587,7 @@ def curve_to_edges(curve: crv.Curve):
     elif isinstance(curve, crv.LineCurve):
         return [line_to_b123d(curve)]
     elif isinstance(curve, crv.TransformedCurve):
-        nurb = crv.convert_curve_nurbezier(curve.target_curve)
-        nurb.apply_transform(curve.transform_method)
+        nurb = crv.convert_curve_nurbezier(curve)
         return gen_splines(nurb)
     else:
         nurb = crv.convert_curve_nurbezier(curve)
-- 
2.43.0


From 1a2e19eeb415860c977fc908f39ccea2323a6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:25 +0000
Subject: [PATCH 46/58] fix: inactive pieces of a chain must not be converted
 to edges

---
 src/gggears/gggears_build123d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index ab108e3..aaa98e5 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -579,7 +579,7 @@ def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
 
 def curve_to_edges(curve: crv.Curve):
     if isinstance(curve, crv.CurveChain):
-        return [curve_to_edges(curve) for curve in curve.get_curves()]
+        return [curve_to_edges(curve) for curve in curve.get_curves() if curve.active]
     elif isinstance(curve, crv.NURBSCurve) | isinstance(curve, crv.NurbCurve):
         return gen_splines(curve)
     elif isinstance(curve, crv.ArcCurve):
-- 
2.43.0


From 835d58ea31b965d2dc352ff62df404eab472fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 47/58] fix: the offset of a rack must be scaled with its
 module

---
 src/gggears/gggears_wrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 9370fce..7765596 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2227,8 +2227,11 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # scale() works about the location of the part, so it has to come first
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
@@ -2430,8 +2433,11 @@ class HelicalRack(InvoluteRack):
             self.part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # scale() works about the location of the part, so it has to come first
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
-- 
2.43.0


From 2332bf879d9271de4b9ff3143def8dd53d784deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:58 +0000
Subject: [PATCH 48/58] fix: the gear must keep its height when building its
 part fails

---
 src/gggears/gggears_build123d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index aaa98e5..2c45f17 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -94,14 +94,16 @@ class GearBuilder(GearToNurbs):
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
             gear.z_vals[-1] += side_surface_extension_ratio * zdiff
             gear.z_vals[0] -= side_surface_extension_ratio * zdiff
-            super().__init__(
-                gear=gear,
-                n_points_hz=n_points_hz,
-                n_points_vert=n_points_vert,
-                oversampling_ratio=oversampling_ratio,
-            )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            try:
+                super().__init__(
+                    gear=gear,
+                    n_points_hz=n_points_hz,
+                    n_points_vert=n_points_vert,
+                    oversampling_ratio=oversampling_ratio,
+                )
+            finally:
+                # restore original z_vals
+                gear.z_vals = z_vals_save
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From c1a5d603a45c6b307d1f445d684de850f80b763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:58 +0000
Subject: [PATCH 49/58] fix: recipes must not change the tooth generator they
 are given

---
 src/gggears/gggears_core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index d1f3833..da32172 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -832,6 +832,8 @@ def default_gear_recipe(
     rp_ref = teeth_data.num_teeth / 2
     pitch_angle = 2 * PI / teeth_data.num_teeth
     gamma = cone_angle / 2
+    # the generator of the caller must stay, it may be used for other gears
+    tooth_generator = copy.deepcopy(tooth_generator)
     tooth_generator.pitch_radius = rp_ref
     tooth_generator.cone_angle = cone_angle
     tooth_generator.pitch_intersect_angle = pitch_angle / 4
@@ -878,6 +880,8 @@ def gear_recipe_from_curve(
             ref_curve_2_param(ref_curve_scaling_function(z), ref_curve).radius / rp_ref
         )
 
+    # the generator of the caller must stay, it may be used for other gears
+    tooth_generator = copy.deepcopy(tooth_generator)
     tooth_generator.pitch_radius = rp_ref
     tooth_generator.cone_angle = lambda z: gammafunc(z) * 2
     tooth_generator.pitch_intersect_angle = pitch_angle / 4
@@ -911,7 +915,7 @@ class Gear:
         self.module = module
         self.z_vals = z_vals.astype(float)
         if tooth_generator is None:
-            # it is updated in the default recipe
+            # it is set up in the default recipe
             self.tooth_generator = GearToothConicGenerator()
         else:
             self.tooth_generator = tooth_generator
@@ -921,6 +925,8 @@ class Gear:
             self.tooth_param = tooth_param
         if cone is None:
             cone = ConicData()
+        else:
+            cone = copy.copy(cone)
         cone.base_radius = self.tooth_param.num_teeth / 2
         if shape_recipe is None:
             z_copy = copy.deepcopy(z_vals)
@@ -935,6 +941,7 @@ class Gear:
                 ref_curve=self.ref_curve,
                 ref_curve_scaling_function=self.ref_curve_scaler,
             )
+            self.tooth_generator = self.shape_recipe.tooth_generator
             if cone.gamma == 0:
                 self.shape_recipe.cone.cone_angle = 0
                 self.shape_recipe.tooth_generator.cone_angle = 0
-- 
2.43.0


From 5c795559dcec04290fba694285ab955432ef2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:58 +0000
Subject: [PATCH 50/58] fix: a copied gear must not depend on the original

---
 src/gggears/gggears_wrapper.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 7765596..12ab25f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -498,14 +498,11 @@ class InvoluteGear(GearInfoMixin):
         z_h = self.inputparam.height / self.inputparam.module
         z_mid = z_h * (0.5 - self.inputparam.z_anchor)
 
+        # the functions below are shared by copies of the gear, so they must not use self
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
-            return (
-                offset
-                - ((z - z_mid) * 2 / z_h) ** 2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            return offset - ((z - z_mid) * 2 / z_h) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = (
             pitch_angle / 4
@@ -582,7 +579,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / self.number_of_teeth),
+                    scale=lambda z: (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
@@ -1704,14 +1701,11 @@ class CycloidGear(GearInfoMixin):
         z_h = self.inputparam.height / self.inputparam.module
         z_mid = z_h * (0.5 - self.inputparam.z_anchor)
 
+        # the functions below are shared by copies of the gear, so they must not use self
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
-            return (
-                offset
-                - ((z - z_mid) * 2 / z_h) ** 2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            return offset - ((z - z_mid) * 2 / z_h) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = pitch_angle / 4 - self.inputparam.backlash / rp_ref
         spiral_coeff = np.tan(self.inputparam.helix_angle) / rp_ref
@@ -1758,8 +1752,7 @@ class CycloidGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: 1
-                    * (1 - z * 2 * np.sin(gamma) / self.inputparam.number_of_teeth),
+                    scale=lambda z: (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
-- 
2.43.0


From 4caa67aae3e7256fc363d96ba9cb33608694864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:58 +0000
Subject: [PATCH 51/58] fix: gears must not share their placement with each
 other

---
 src/gggears/gggears_base_classes.py |  4 ++--
 src/gggears/gggears_core.py         |  4 ++--
 src/gggears/gggears_wrapper.py      | 22 +++++++++++++---------
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 625df5e..d8ddb99 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -58,8 +58,8 @@ class TransformData:
         Scale factor of the transformation.
     """
 
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
-    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
+    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3.copy())
     scale: float = 1.0
 
     @property
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index da32172..c2b964a 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -975,7 +975,7 @@ class Gear:
 
     @center.setter
     def center(self, value):
-        self.transform.center = value
+        self.transform.center = np.array(value)
 
     @property
     def center_sphere(self):
@@ -1069,7 +1069,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = other.transform.orientation.copy()
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 12ab25f..6d501b9 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -83,7 +83,7 @@ class GearInfoMixin:
 
     @center.setter
     def center(self, value):
-        self.gearcore.transform.center = value
+        self.gearcore.transform.center = np.array(value)
 
     @property
     def center_spherical(self):
@@ -585,7 +585,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -702,7 +702,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -717,8 +719,8 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
+        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.orientation = UNIT3X3.copy()
         self.gearcore.transform.angle = 0
 
     def build_boundary_wire(self, z_ratio: float = 0):
@@ -1758,7 +1760,7 @@ class CycloidGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -1855,7 +1857,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
@@ -2128,8 +2132,8 @@ class InvoluteRack:
         self.number_of_teeth = number_of_teeth
         self.height = height
         self.pressure_angle = pressure_angle
-        self.position = position
-        self.orientation = orientation
+        self.position = np.array(position)
+        self.orientation = np.array(orientation)
         self.offset = offset
         self.module = module
         self.root_fillet = root_fillet
-- 
2.43.0


From 9ffd3e0fbc6fa1fb63ce8f9679317afe3bb921ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:43 +0000
Subject: [PATCH 52/58] fix: the undercut must be joined where the flanks were
 found to intersect

---
 src/gggears/gearteeth.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 2bb3903..872fdfd 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -544,12 +544,19 @@ def trim_involute_undercut(
     sol = crv.find_curve_intersect(tooth_curve, undercut_curve, guess=guess)
 
     if not sol.success:
-        sol = crv.find_curve_intersect(
+        sol_min = crv.find_curve_intersect(
             tooth_curve,
             undercut_curve,
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
+
+        def distance(x):
+            return np.linalg.norm(tooth_curve(x[0]) - undercut_curve(x[1]))
+
+        # the first search may have stopped at the intersection itself
+        if distance(sol_min.x) < distance(sol.x):
+            sol = sol_min
     # a tooth curve that is a single curve has no extension
     if (
         isinstance(tooth_curve, crv.CurveChain)
-- 
2.43.0


From fe3b77c91d96dfeb44cbb311f0141f5a829d2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:21 +0000
Subject: [PATCH 53/58] fix: a chain's fillet must be searched for on both
 sides of the corner

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 42feaa3..de42d09 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -666,7 +666,7 @@ class CurveChain(Curve):
         Suitable points for tangent arc are searched with starting points at the specified single location.
         """
         return self.fillet_at_locations(
-            radius, [location + radius / self.length, location - radius / self.length]
+            radius, [location - radius / self.length, location + radius / self.length]
         )
 
     def fillet_at_index(self, radius, index):
-- 
2.43.0


From 1ee45edbce96bd06e39c4db95a1dff861cbfdf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:19 +0000
Subject: [PATCH 54/58] fix: derivatives of a Bezier curve beyond its degree
 must be zero

---
 src/gggears/function_generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 3ff6820..a5dcf9b 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -382,8 +382,8 @@ def nurbezier(t, points, weights):
 def bezier_diff_t(t, points, n=1):
     d = points.shape[0]
     diffpoints = points
-    if n > d:
-        return np.zeros(t.shape + points.shape)
+    if n >= d:
+        return np.zeros(np.shape(t) + points.shape[1:])
     for k in range(n):
         diffpoints = (d - k - 1) * (diffpoints[1:] - diffpoints[:-1])
     # diffpoints = points[1:] - points[:-1]
-- 
2.43.0


From d7c0f4027ed5edab2f315d6fcbbf57f6851a2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:19 +0000
Subject: [PATCH 55/58] fix: converting a nested chain must keep its inactive
 curves when asked to

---
 src/gggears/curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index de42d09..f619c71 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -926,7 +926,9 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
         out_curve_list = []
         for curve in input_curve:
             if curve.active or not skip_inactive:
-                out_curve_list.append(convert_curve_nurbezier(curve, **kwargs))
+                out_curve_list.append(
+                    convert_curve_nurbezier(curve, skip_inactive, **kwargs)
+                )
         return NURBSCurve(*out_curve_list)
 
     else:
@@ -941,7 +943,7 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
                 target_curve.set_start_and_end_on(min(t_0, t_1), max(t_0, t_1))
                 if t_1 < t_0:
                     target_curve.reverse()
-            convert = convert_curve_nurbezier(target_curve, **kwargs)
+            convert = convert_curve_nurbezier(target_curve, skip_inactive, **kwargs)
             convert.apply_transform(transform)
             return convert
         elif isinstance(input_curve, LineCurve):
-- 
2.43.0


From 37fd3b14efe260d98d8da78a87c4ec4cc2045d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:19 +0000
Subject: [PATCH 56/58] fix: converting a transformed curve must use the
 parameters of its transform

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index f619c71..9e6a00d 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -935,7 +935,7 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
         if isinstance(input_curve, NurbCurve):
             return input_curve
         elif isinstance(input_curve, TransformedCurve):
-            transform = input_curve.transform_method
+            transform = input_curve.apply_transform
             # copy: the conversion must leave the target curve as it is
             target_curve = input_curve.target_curve.copy()
             t_0, t_1 = input_curve.t_0, input_curve.t_1
-- 
2.43.0


From a1f37e9b96eaec02d07e6497dfac31f6c01d5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:19 +0000
Subject: [PATCH 57/58] fix: the second search for the tooth root must be
 judged by its own result

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index c2b964a..9db7dcf 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -489,7 +489,7 @@ def trim_reference_profile(
                 method=crv.IntersectMethod.MINDISTANCE,
             )
             solcheck2 = np.linalg.norm(
-                tooth_curve(sol_root.x[0]) - ref_curves.r_d_curve(sol_root.x[1])
+                tooth_curve(sol_root_2.x[0]) - ref_curves.r_d_curve(sol_root_2.x[1])
             )
             if sol_root_2.success or solcheck2 < 1e-5:
                 solcheck = solcheck2
-- 
2.43.0


From 5ce3900de5ffe1e9fe83e9cdf057900fffc015d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:42 +0000
Subject: [PATCH 58/58] fix: extra sections of a twisted gear must not coincide
 with its own sections

---
 src/gggears/gggears_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 6d501b9..5a0b32b 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1157,6 +1157,9 @@ class HelicalGear(InvoluteGear):
                 self.gearcore.z_vals[-1],
                 z_add + len(self.gearcore.z_vals),
             )
+            # rounding may put a new section right next to an existing one
+            gaps = np.abs(new_z_vals[:, np.newaxis] - self.gearcore.z_vals)
+            new_z_vals = new_z_vals[np.min(gaps, axis=1) > DELTA]
             new_z_vals = np.unique((np.concatenate((new_z_vals, self.gearcore.z_vals))))
             self.gearcore.z_vals = new_z_vals
 
-- 
2.43.0

