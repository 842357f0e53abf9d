From 86809e92044f6d783f315e48c1aaf0bdeca35878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 01/60] fix: Quadric, Sphere and Paraboloid intersections
 choose the sheet the surface describes

Rays starting on the surface, conic=-1 and R=0 produced NaN positions not
marked failed, and rays meeting only the far half or far sheet of a sphere or
conic were reported as good intersections.
---
 src/paraboloid.cpp | 17 +++++++++------
 src/quadric.cpp    | 54 ++++++++++++++++++++++++++++++++--------------
 src/sphere.cpp     | 40 +++++++++++++++++++---------------
 3 files changed, 71 insertions(+), 40 deletions(-)

diff --git a/src/paraboloid.cpp b/src/paraboloid.cpp
index d282c95..68e59e1 100644
--- a/src/paraboloid.cpp
+++ b/src/paraboloid.cpp
@@ -40,10 +40,16 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
+        if (_R == 0) {  // plane
+            if (vz == 0)
+                return false;
+            dt = -z/vz;
+            return true;
+        }
+
         double a = (vx*vx + vy*vy)*_2Rinv;
         double b = (x*vx + y*vy)*_Rinv - vz;
         double c = (x*x + y*y)*_2Rinv - z;
-        double dt1;
 
         if (a == 0) {
             // Ray is heading straight at optic axis.
@@ -56,12 +62,9 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        double q = -0.5*(b + std::copysign(std::sqrt(discriminant), b));
+        double dt1 = q/a;
+        double dt2 = (q == 0) ? dt1 : c/q;
 
         // If vz down and paraboloid concave up, then pick greatest time;
         // I.e., intersection closest to the origin.
diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..185d804 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -43,30 +43,52 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
-        double vrr0 = vx*x + vy*y;
+        if (_R == 0) {  // plane
+            if (vz == 0)
+                return false;
+            dt = -z/vz;
+            return true;
+        }
 
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
+        // Points on the (two-sheeted) conic satisfy
+        //   x^2 + y^2 + (1+conic) z^2 - 2 R z = 0
+        double a = vx*vx + vy*vy + _cp1*vz*vz;
+        double b = 2*(vx*x + vy*y + vz*(_cp1*z - _R));
+        double c = x*x + y*y + z*(_cp1*z - 2*_R);
 
-        double discriminant = b*b - 4*a*c;
+        double dt1, dt2;
+        if (a == 0) {
+            // Only one intersection
+            if (b == 0)
+                return false;
+            dt1 = dt2 = -c/b;
+        } else {
+            double discriminant = b*b - 4*a*c;
 
-        if (discriminant < 0)
-            return false;
+            if (discriminant < 0)
+                return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double q = -0.5*(b + std::copysign(std::sqrt(discriminant), b));
+            dt1 = q/a;
+            dt2 = (q == 0) ? dt1 : c/q;
         }
-        double dt2 = c / (a*dt1);
 
-        // New strategy, just always pick smaller abs(z).
+        // The surface is only the sheet that includes the vertex.
         double z1 = z + vz*dt1;
         double z2 = z + vz*dt2;
-        dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        bool good1 = (_cp1*z1/_R <= 1);
+        bool good2 = (_cp1*z2/_R <= 1);
+        if (!good1 && !good2)
+            return false;
+
+        // If there's still a choice, pick smaller abs(z), or earlier if tied.
+        if (good1 && good2) {
+            if (std::abs(z1) == std::abs(z2))
+                dt = std::min(dt1, dt2);
+            else
+                dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        } else
+            dt = good1 ? dt1 : dt2;
         return true;
     }
 
diff --git a/src/sphere.cpp b/src/sphere.cpp
index d0f505f..ad0a338 100644
--- a/src/sphere.cpp
+++ b/src/sphere.cpp
@@ -38,31 +38,37 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double vr2 = vx*vx + vy*vy;
-        double vz2 = vz*vz;
-        double vrr0 = vx*x + vy*y;
-        double r02 = x*x + y*y;
-        double z0term = z-_R;
+        if (_R == 0) {  // plane
+            if (vz == 0)
+                return false;
+            dt = -z/vz;
+            return true;
+        }
 
-        double a = vz2 + vr2;
-        double b = 2*vz*z0term + 2*vrr0;
-        double c = z0term*z0term - _Rsq + r02;
+        double a = vx*vx + vy*vy + vz*vz;
+        double b = 2*(vx*x + vy*y + vz*(z - _R));
+        double c = x*x + y*y + z*(z - 2*_R);
 
         double discriminant = b*b - 4*a*c;
 
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        double q = -0.5*(b + std::copysign(std::sqrt(discriminant), b));
+        double dt1 = q/a;
+        double dt2 = (q == 0) ? dt1 : c/q;
+
+        // The surface is only the half of the sphere that includes the vertex.
+        bool good1 = ((z + vz*dt1)/_R <= 1);
+        bool good2 = ((z + vz*dt2)/_R <= 1);
+        if (!good1 && !good2)
+            return false;
 
-        // If vz < 0, R > 0, want greatest time.
-        dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
+        // If there's still a choice, then for vz < 0, R > 0, want greatest time.
+        if (good1 && good2)
+            dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
+        else
+            dt = good1 ? dt1 : dt2;
         return true;
     }
 
-- 
2.43.0


From af10fe68d70010ac4118eff3be88648777ed1a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 02/60] fix: start iterative intersections from the crossing of
 the surface's z=0 plane

Rays on a Bicubic or Zernike surface failed (or converged elsewhere) depending
on how far back along their line they started.
---
 src/batoid.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..7d9752d 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -234,7 +234,7 @@ namespace batoid {
             double t = tptr[i];
             // intersection
             if (!failptr[i]) {
-                double dt = 0.0;
+                double dt = (vz != 0) ? -z/vz : 0.0;  // initial guess
                 bool success = surfacePtr->timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
                 if (success) {
                     x += vx * dt;
@@ -332,7 +332,7 @@ namespace batoid {
             double t = tptr[i];
             if (!failptr[i]) {
                 // intersection
-                double dt = 0.0;
+                double dt = (vz != 0) ? -z/vz : 0.0;  // initial guess
                 bool success = surfacePtr->timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
                 if (success) {
                     // propagation
@@ -442,7 +442,7 @@ namespace batoid {
             double t = tptr[i];
             if (!failptr[i]) {
                 // intersection
-                double dt = 0.0;
+                double dt = (vz != 0) ? -z/vz : 0.0;  // initial guess
                 bool success = surfacePtr->timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
                 if (success) {
                     // propagation
@@ -592,7 +592,7 @@ namespace batoid {
             double t = tptr[i];
             if (!failptr[i]) {
                 // intersection
-                double dt = 0.0;
+                double dt = (vz != 0) ? -z/vz : 0.0;  // initial guess
                 bool success = surfacePtr->timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
                 if (success) {
                     // propagation
@@ -731,7 +731,7 @@ namespace batoid {
             double t = tptr[i];
             if (!failptr[i]) {
                 // intersection
-                double dt = 0.0;
+                double dt = (vz != 0) ? -z/vz : 0.0;  // initial guess
                 bool success = surfacePtr->timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
                 if (success) {
                     // propagation
-- 
2.43.0


From 62a93192dcfeb95aa1684736a5e0c78a69f89c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 03/60] fix: ObscPolygon.containsGrid for open polygons,
 non-square and coarse grids

The closing edge was ignored, non-square outputs were indexed with the wrong
stride (writing outside the array), only one crossing was consumed per grid
point, and grids were assumed to be contiguous float arrays.
---
 batoid/obscuration.py |  2 ++
 src/obscuration.cpp   | 16 ++++------------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..680066a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -290,6 +290,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..5a520d0 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -270,18 +270,10 @@ namespace batoid {
                 y1 = y2;
             }
             std::sort(xinters.begin(), xinters.end());
-            // All points to the left of first intercept are outside the polygon
-            // Alternate after that.
-            bool contained = false;
-            auto xptr = xinters.begin();
+            // A point is inside if it's to the right of an odd number of intercepts.
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
-                }
-                out[j*ny+i] = contained;
+                auto nleft = std::lower_bound(xinters.begin(), xinters.end(), xgrid[i]) - xinters.begin();
+                out[j*nx+i] = nleft % 2;
             }
         }
     }
-- 
2.43.0


From 5908b5a97107d08a16f22de029d907f51e8a5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 04/60] fix: Obscuration.obscure returns the rays as documented

---
 batoid/obscuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 680066a..6c028bc 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -39,7 +39,7 @@ class Obscuration:
         out : `RayVector`
             Returned object will have appropriate elements marked as vignetted.
         """
-        obscure(self, rv)
+        return obscure(self, rv)
 
     def __ne__(self, rhs):
         return not (self == rhs)
-- 
2.43.0


From fe2fab0af0f9bb1e7433a6e2db089f9a3efb07a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 05/60] fix: comparing polygons with different numbers of
 vertices

---
 batoid/obscuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 6c028bc..b3e7d72 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -268,8 +268,8 @@ class ObscPolygon(Obscuration):
     def __eq__(self, rhs):
         if type(rhs) == type(self):
             return (
-                np.all(self.xs == rhs.xs)
-                and np.all(self.ys == rhs.ys)
+                np.array_equal(self.xs, rhs.xs)
+                and np.array_equal(self.ys, rhs.ys)
             )
         return False
 
-- 
2.43.0


From fe77b37b5fee9dcf1a8795ff9164851fd225e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 06/60] fix: TableMedium stores its table as floats

The C++ layer reads the arrays as doubles, so integer tables gave NaN.
---
 batoid/medium.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..08b19ed 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,8 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float, order='C')
+        self.ns = np.array(ns, dtype=float, order='C')
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
-- 
2.43.0


From e08f1fe18083e2d6246837b376ebf75636f27409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 07/60] fix: TableMedium reads past its table at the last
 wavelength

---
 src/medium.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..36c730b 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -93,7 +93,7 @@ namespace batoid {
             if (wavelength > _args[_size-1])
                 return NAN;
             int upperIdx;
-            for(upperIdx=1; upperIdx<_size; upperIdx++) {
+            for(upperIdx=1; upperIdx<_size-1; upperIdx++) {
                 if (wavelength < _args[upperIdx])
                     break;
             }
-- 
2.43.0


From 96ba524e0f39888389d40c82d27013964ed801e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 08/60] fix: Asphere with imin=1 keeps its own float copy of
 the coefficients

Integer coefficients were reinterpreted as doubles by the C++ layer, and a
float array was shared with the caller.
---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..678d1f8 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -393,7 +393,7 @@ class Asphere(Surface):
             padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
         else:
             padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.array(padded_coefs, dtype=float, order="C")
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From b7b880d79ff72b8ecd0c544271c89f3e787e9418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 09/60] fix: equal Bicubics hash alike whatever the case of
 nanpolicy

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 678d1f8..0fbb0d3 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -611,7 +611,7 @@ class Bicubic(Surface):
         return hash((
             "Bicubic", tuple(self.xs), tuple(self.ys), tuple(self.zs.ravel()),
             tuple(self.dzdxs.ravel()), tuple(self.dzdys.ravel()),
-            tuple(self.d2zdxdys.ravel()), self.nanpolicy
+            tuple(self.d2zdxdys.ravel()), self.nanpolicy.upper()
         ))
 
     def __setstate__(self, args):
-- 
2.43.0


From c5720c18d58a706dcae8cde9e779fc05d19697f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 10/60] fix: RayVector indexing with negative and numpy
 integers

rv[-2] returned more than one ray and rv[np.int64(0)] a malformed batch.
---
 batoid/rayVector.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..9eb0a04 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1318,19 +1318,14 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
-            if idx >= 0:
-                if idx >= self._rv.t.size:
-                    msg = "index {} is out of bounds for axis 0 with size {}"
-                    msg = msg.format(idx, self._rv.t.size)
-                    raise IndexError(msg)
-                idx = slice(idx, idx+1)
-            else:
-                if idx < -self._rv.t.size:
-                    msg = "index {} is out of bounds for axis 0 with size {}"
-                    msg = msg.format(idx, self._rv.t.size)
-                    raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+        if isinstance(idx, Integral):
+            size = len(self)
+            if not -size <= idx < size:
+                msg = "index {} is out of bounds for axis 0 with size {}"
+                msg = msg.format(idx, size)
+                raise IndexError(msg)
+            idx = idx % size
+            idx = slice(idx, idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From 289291f044116c31cadedc3cd672f5ec8c787417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 11/60] fix: RayVector equality compares lengths and frames

Batches of different lengths compared past the end of the shorter one, and
equal numbers in different coordinate systems counted as the same rays.
---
 batoid/rayVector.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 9eb0a04..3a01ada 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1290,10 +1290,16 @@ class RayVector:
         return self._t.size
 
     def __eq__(self, rhs):
-        return self._rv == rhs._rv
+        if not isinstance(rhs, RayVector):
+            return False
+        return (
+            len(self) == len(rhs)
+            and self.coordSys == rhs.coordSys
+            and self._rv == rhs._rv
+        )
 
     def __ne__(self, rhs):
-        return self._rv != rhs._rv
+        return not (self == rhs)
 
     def __repr__(self):
         out = f"RayVector({self.x!r}, {self.y!r}, {self.z!r}"
-- 
2.43.0


From b54c00c12fdd65a80b00b609f16ff8a6dc5da59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 12/60] fix: Surface.normal broadcasts its arguments

Arguments of different shapes were read out of bounds; sag broadcasts them.
---
 batoid/surface.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 0fbb0d3..c7ad72d 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -38,20 +38,17 @@ class Surface(ABC):
         normal : array_like, shape (n, 3)
             Surface normals.
         """
-        xx = np.asfortranarray(x, dtype=float)
-        yy = np.asfortranarray(y, dtype=float)
+        xx, yy = np.broadcast_arrays(x, y)
+        scalar = xx.ndim == 0
+        xx = np.asfortranarray(xx, dtype=float)
+        yy = np.asfortranarray(yy, dtype=float)
         out = np.empty(xx.shape+(3,), order='F', dtype=float)
         size = len(xx.ravel())
 
         self._surface.normal(
             xx.ctypes.data, yy.ctypes.data, size, out.ctypes.data
         )
-        try:
-            len(x)
-        except TypeError:
-            return out[0]
-        else:
-            return out
+        return out[0] if scalar else out
 
     def intersect(self, rv, coordSys=None, coating=None):
         return intersect(self, rv, coordSys, coating)
-- 
2.43.0


From a5bfe2ab887db5c1194c20a63e2c6242bcf1ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 13/60] fix: Optic honours the skip argument

It was always reset to False, in the constructor and in every derived optic.
---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..d8da8dd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From e0fba6900246f8a8c1450c5a0fbc85715db2e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 14/60] fix: skip takes part in the equality and printed form
 of optics

---
 batoid/optic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d8da8dd..223e682 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -54,6 +54,8 @@ class Optic:
             out += ", inMedium={!r}".format(self.inMedium)
         if self.outMedium != vacuum:
             out += ", outMedium={!r}".format(self.outMedium)
+        if self.skip:
+            out += ", skip={!r}".format(self.skip)
         return out
 
     @classmethod
@@ -554,7 +556,8 @@ class Interface(Optic):
             self.name == other.name and
             self.inMedium == other.inMedium and
             self.outMedium == other.outMedium and
-            self.coordSys == other.coordSys
+            self.coordSys == other.coordSys and
+            self.skip == other.skip
         )
 
     def __ne__(self, other):
@@ -1337,7 +1340,8 @@ class CompoundOptic(Optic):
                 self.name == other.name and
                 self.inMedium == other.inMedium and
                 self.outMedium == other.outMedium and
-                self.coordSys == other.coordSys)
+                self.coordSys == other.coordSys and
+                self.skip == other.skip)
 
     def __ne__(self, other):
         return not (self == other)
-- 
2.43.0


From da00aa7f41c40aaa89187f020dc1d2f7723193a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 15/60] fix: optics derived from one with coatings keep those
 coatings

---
 batoid/optic.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 223e682..a5489d3 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -764,13 +764,13 @@ class RefractiveInterface(Interface):
     Rays will interact with this surface by refracting through it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -802,13 +802,13 @@ class Mirror(Interface):
     Rays will interact with this surface by reflecting off of it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -830,11 +830,11 @@ class Detector(Interface):
     stop with this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = None
+        ))
+        kwargs.setdefault('reverseCoating', None)
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -851,13 +851,13 @@ class Baffle(Interface):
     the vignetting calculation will still be applied at this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From 0130cb7899eda4d7c224a54c9ecd9600505dc084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 16/60] fix: traceSplit through skipped optics returns lists of
 rays

---
 batoid/optic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index a5489d3..e9722db 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -506,9 +506,9 @@ class Interface(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1228,9 +1228,9 @@ class CompoundOptic(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
@@ -1262,7 +1262,7 @@ class CompoundOptic(Optic):
                         rr.vignetted[w], rr.failed[w],
                         rr.coordSys
                     )
-                    rList[i].path = rr.path
+                    rList[i].path = getattr(rr, 'path', [])
 
             for rr in rForward:
                 if len(rr) > 0:
-- 
2.43.0


From 3128b5cbf90a023ecb2ac40ec658c20e038aa2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 17/60] fix: OPDScreen.rSplit called a method that does not
 exist

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index e9722db..840b3a2 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -926,7 +926,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv, reverse=reverse), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From 3e1e377ba3f8fc54b74121e4ac6d0b18f2aae8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 18/60] fix: with...Optic and withSurface select the named
 part, not a prefix of it

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 840b3a2..e49891d 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1441,7 +1441,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1604,7 +1604,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1652,7 +1652,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From d2c3ddbd56a9ce0b3bfa1ec888cdece5b39fd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 19/60] fix: Interface.withLocalRotation moves its stop surface
 rigidly

---
 batoid/optic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index e49891d..1482383 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -684,8 +684,12 @@ class Interface(Optic):
             rot, rotCenter, coordSys
         )
         if 'stopSurface' in newDict:
-            newDict['stopSurface'] = newDict['stopSurface'].withLocalRotation(
-                rot, rotCenter, coordSys
+            # Same rotation as the interface, not about the stop's own axes.
+            newDict['stopSurface'] = (
+                newDict['stopSurface'].withGlobalRotation(
+                    self.coordSys.rot@rot@self.coordSys.rot.T,
+                    rotCenter, coordSys
+                )
             )
         del newDict['surface']
         ret.__init__(
-- 
2.43.0


From f193c75d75fd2d47dd8bdc916d993d761ec79e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 20/60] fix: withInsertedOptic and withRemovedOptic with
 repeated names raised KeyError

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 1482383..e5d834f 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1715,8 +1715,8 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
-        for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+        for it in self.items:
+            if self.name+'.'+it.name == before:
                 newItems.append(item)
             newItems.append(it)
         return self.__class__(
@@ -1745,7 +1745,7 @@ class CompoundOptic(Optic):
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for it in self.items:
-            if self._names[it.name] != self._names[item]:
+            if self.name+'.'+it.name != item:
                 newItems.append(it)
         return self.__class__(
             newItems,
-- 
2.43.0


From bd518dc5f0b28db73a8d1150745c868c64709e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 21/60] fix: phase screens deflect rays travelling along +z by
 the documented sign

The direction cosines change by the gradient of the OPD whatever the direction of
travel (as documented, and as the time delay by the OPD requires), so that a reversed
ray retraces its path through a screen.
---
 src/batoid.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 7d9752d..a4cb0f1 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -800,15 +800,9 @@ namespace batoid {
                     // printf("dPd1 = %.18f\n", dPd1);
                     // printf("dPd2 = %.18f\n", dPd2);
 
-                    if (cos3 < 0) {
-                        cos1 += dPd1;
-                        cos2 += dPd2;
-                        cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
-                    } else {
-                        cos1 -= dPd1;
-                        cos2 -= dPd2;
-                        cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
-                    }
+                    cos1 += dPd1;
+                    cos2 += dPd2;
+                    cos3 = std::copysign(std::sqrt(1 - cos1*cos1 - cos2*cos2), cos3);
 
                     // printf("cos1 = %.18f\n", cos1);
                     // printf("cos2 = %.18f\n", cos2);
-- 
2.43.0


From 4a2b42db67a54e328d62e6c1602c95daeeca02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 22/60] fix: asGrid treats vector lx and ly as the primitive
 vectors of the grid

They were used as rows of the matrix of primitive vectors, which mirrors or shears the
grid unless that matrix is symmetric.
---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 3a01ada..6012b2b 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -429,8 +429,8 @@ class RayVector:
             xx = xx.ravel()
             yy = yy.ravel()
         stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
+        # lx and ly are the primitive vectors of the parallelogram
+        x, y = np.dot(np.stack([lx, ly]).T, stack)
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
-- 
2.43.0


From f3c24a9c25b9a5823217a55ced9e54d2c58ebfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 23/60] fix: asGrid with vector dx and with two rays per side

A vector dx is a primitive vector: dy defaults to its rotation by 90 degrees, and the number
of rays follows from the lengths.  With nx=2 and dx both rays were at the same point.
---
 batoid/rayVector.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 6012b2b..28bf6f4 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -370,8 +370,15 @@ class RayVector:
 
         if nx is not None and ny is None:
             ny = nx
+        if dx is not None and not isinstance(dx, Real):
+            dx = np.array(dx, dtype=float)
+        if dy is not None and not isinstance(dy, Real):
+            dy = np.array(dy, dtype=float)
         if dx is not None and dy is None:
-            dy = dx
+            if isinstance(dx, Real):
+                dy = dx
+            else:
+                dy = np.dot(np.array([[0, -1], [1, 0]]), dx)
         if lx is not None and ly is None:
             if isinstance(lx, Real):
                 ly = lx
@@ -382,11 +389,11 @@ class RayVector:
         # arguments if they're not already available.
         if nx is not None and dx is not None:
             if (nx%2) == 0:
-                lx = dx*(nx-2)
+                lx = dx*max(nx-2, 2)
             else:
                 lx = dx*(nx-1)
             if (ny%2) == 0:
-                ly = dy*(ny-2)
+                ly = dy*max(ny-2, 2)
             else:
                 ly = dy*(ny-1)
         elif lx is not None and dx is not None:
@@ -394,8 +401,8 @@ class RayVector:
             # always infer an even n (since even and odd are degenerate given
             # only lx, dx).
             slop = 0.1  # prevent 3.9999 -> 3, e.g.
-            nx = int((lx/dx+slop)//2)*2+2
-            ny = int((ly/dy+slop)//2)*2+2
+            nx = int((np.linalg.norm(lx)/np.linalg.norm(dx)+slop)//2)*2+2
+            ny = int((np.linalg.norm(ly)/np.linalg.norm(dy)+slop)//2)*2+2
             # These are the real dx, dy; which may be different from what was
             # passed in order to force an integer for nx/ny.  We don't actually
             # need them after this point though.
-- 
2.43.0


From e29dd38473595d4a5d7b1f15d383587dcdc8c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 24/60] fix: asSpokes with an integer flux, explicit rings or
 explicit spokes

An integer flux (the default) was handed to the C++ layer as raw integers, explicit rings made
an integer number of spokes be taken as one azimuth, and Gaussian quadrature weights
could not be computed for explicit spokes.
---
 batoid/rayVector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 28bf6f4..695f442 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -798,11 +798,12 @@ class RayVector:
                 eps = inner/outer
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
-                flux = w*area/(2*spokes)
-            if isinstance(spokes, Integral):
-                spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+                nspokes = spokes if isinstance(spokes, Integral) else len(spokes)
+                flux = w*area/(2*nspokes)
+        if isinstance(spokes, Integral):
+            spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
-        flux = np.broadcast_to(flux, rings.shape)
+        flux = np.array(np.broadcast_to(flux, rings.shape), dtype=float)
         rings = rings.ravel()
         spokes = spokes.ravel()
         flux = flux.ravel()
-- 
2.43.0


From f0fc28a90af150c46e41ae0616b6848d88539bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 25/60] fix: fromStop no longer overwrites the caller's arrays

They were transformed in place (and misread when not contiguous).
---
 batoid/rayVector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 695f442..a512df0 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -975,8 +975,10 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        # Transformed in place below, so copy (contiguously).
+        x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
+        x = np.array(x, dtype=float, order='C')
+        y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From bf944d8f279a90df0b56ca441943e3fa240abe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 26/60] fix: rays from a finite source

The generators accept source=point but returned None for it.
---
 batoid/rayVector.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index a512df0..3d379c5 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -853,17 +853,24 @@ class RayVector:
                 flux, vignetted, failed, coordSys
             )
         else:
-            pass
-            # v = np.copy(r)
-            # v -= source
-            # v /= n*np.einsum('ab,ab->b', v, v)
-            # r[:] = source
-            # t = np.zeros(len(r), dtype=float)
-            # vignetted = np.zeros(len(r), dtype=bool)
-            # failed = np.zeros(len(r), dtype=bool)
-            # return RayVector._directInit(
-            #     r, v, t, w, flux, vignetted, failed, coordSys
-            # )
+            source = coordSys.toLocal(source)
+            vx = x - source[0]
+            vy = y - source[1]
+            vz = z - source[2]
+            norm = n*np.sqrt(vx*vx + vy*vy + vz*vz)
+            vx /= norm
+            vy /= norm
+            vz /= norm
+            x.fill(source[0])
+            y.fill(source[1])
+            z.fill(source[2])
+            t = np.zeros(len(x), dtype=float)
+            vignetted = np.zeros(len(x), dtype=bool)
+            failed = np.zeros(len(x), dtype=bool)
+            return RayVector._directInit(
+                x, y, z, vx, vy, vz, t, w,
+                flux, vignetted, failed, coordSys
+            )
 
     @classmethod
     def fromStop(
-- 
2.43.0


From c9edce7c0c06903b4de9836503174faf8e91d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 27/60] fix: backDist is measured from the stop surface as
 documented

The starting plane was placed backDist from the origin of the rays' coordinate system instead of
from the center of the stop surface.
---
 batoid/rayVector.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 3d379c5..ec9f5e4 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -447,7 +447,8 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys,
+            stopSurface
         )
 
     @classmethod
@@ -646,7 +647,8 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys,
+            stopSurface
         )
 
     @classmethod
@@ -818,12 +820,14 @@ class RayVector:
         w.fill(wavelength)
         n = medium.getN(wavelength)
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys,
+            stopSurface
         )
 
     @classmethod
     def _finish(
-        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys,
+        stopSurface
     ):
         """Map rays backwards to their source position."""
         if isinstance(flux, Real):
@@ -835,7 +839,10 @@ class RayVector:
             xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
-            origin = zhat*backDist
+            # backDist is measured from the center of the stop surface
+            center = np.array([0.0, 0.0, stopSurface.surface.sag(0.0, 0.0)])
+            center = coordSys.toLocal(stopSurface.coordSys.toGlobal(center))
+            origin = center + zhat*backDist
             rot = np.stack([xhat, yhat, zhat]).T
             _batoid.finishParallel(
                 origin, rot.ravel(), vv,
@@ -995,7 +1002,8 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys,
+            stopSurface
         )
 
     @classmethod
-- 
2.43.0


From 04df928375da1bdaad30a84c46f64bf2c520f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 28/60] fix: reciprocal lattice vectors of non-rectangular
 lattices

b_i . a_j must be 2 pi/N delta_ij; the off-diagonal signs were missing, so the PSF lattices of
systems with sheared or rotated pupil mappings were wrong.
---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..6a36d70 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -7,8 +7,8 @@ from .utils import bilinear_fit, fieldToDirCos
 
 def _reciprocalLatticeVectors(a1, a2, N):
     norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N
-    b1 = norm*np.array([a2[1], a2[0]])
-    b2 = norm*np.array([a1[1], a1[0]])
+    b1 = norm*np.array([a2[1], -a2[0]])
+    b2 = norm*np.array([-a1[1], a1[0]])
     return b1, b2
 
 
-- 
2.43.0


From ea7a2be3f69273d724cd1c0c72ace31d631eac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 29/60] fix: fftPSF with an odd number of rays per side

---
 batoid/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 6a36d70..92fc6cd 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -458,7 +458,7 @@ def fftPSF(
     pad_size = nx*pad_factor
     expwf = np.zeros((pad_size, pad_size), dtype=np.complex128)
     start = pad_size//2-nx//2
-    stop = pad_size//2+nx//2
+    stop = start+nx
     expwf[start:stop, start:stop][~wfarr.mask] = \
         np.exp(2j*np.pi*wfarr[~wfarr.mask])
     psf = np.abs(np.fft.fftshift(np.fft.fft2(expwf)))**2
-- 
2.43.0


From af9a81cf417e2ac128d69adf3cef9f7acfc4d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 30/60] fix: zernikeGQ's chief ray ignored the optic's
 coordinate system

---
 batoid/analysis.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 92fc6cd..892a1e8 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -671,11 +671,8 @@ def zernikeGQ(
         point = np.mean(rays.r[w], axis=0)
     elif reference == 'chief':
         chiefRay = batoid.RayVector.fromStop(
-            0.0, 0.0,
-            backDist=optic.backDist, wavelength=wavelength,
-            dirCos=dirCos,
-            medium=optic.inMedium,
-            stopSurface=optic.stopSurface
+            0.0, 0.0, optic=optic, wavelength=wavelength,
+            dirCos=dirCos
         )
         optic.trace(chiefRay)
         point = chiefRay.r[0]
-- 
2.43.0


From a3bbb852d10b094424add691ae19657bcbac1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 31/60] fix: exitPupilPos measures from the optic's axis, not
 the global z axis

---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 892a1e8..73243bb 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -1037,8 +1037,8 @@ def exitPupilPos(optic, wavelength, smallAngle=np.deg2rad(1./3600), **kwargs):
         ps.append(_closestApproach(
             ray.r[0],
             ray.v[0],
-            np.array([0., 0., 0.]),
-            np.array([0., 0., 1.0])
+            optic.coordSys.origin,
+            optic.coordSys.zhat
         ))
     return np.mean(ps, axis=0)
 
-- 
2.43.0


From c0192135c4bd94889c34c3491036d9adb3e6ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 32/60] fix: focalLength of systems that flip the image was NaN

---
 batoid/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 73243bb..a482cf2 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -1071,10 +1071,11 @@ def focalLength(*args, **kwargs):
     -----
         Computed from Jacobian drdth, suitably averaged over azimuth.
     """
-    return np.sqrt(
+    # The determinant is negative if the system flips the parity of the image.
+    return np.sqrt(np.abs(
         np.linalg.det(
             batoid.analysis.drdth(
                 *args, **kwargs
             )
         )
-    )
+    ))
-- 
2.43.0


From bd3f1c31298db4a65c7abd082c7a49107598e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 33/60] fix: parsing an Interface dropped its obscuration and
 media

---
 batoid/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..fd41a86 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -208,7 +208,8 @@ def parse_optic(config,
         surface = parse_surface(config.pop('surface'))
         return batoid.optic.Interface(
             surface, name=name,
-            coordSys=coordSys,
+            coordSys=coordSys, obscuration=obscuration,
+            inMedium=inMedium, outMedium=outMedium,
             **kwargs
         )
     else:
-- 
2.43.0


From 5e7dcc6875d024eff32483d48efb2c10ee0c563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 34/60] fix: parsing a configuration consumed it

Parts that are referenced twice (YAML aliases) could only be parsed once, and a configuration could not
be parsed again.
---
 batoid/parse.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/batoid/parse.py b/batoid/parse.py
index fd41a86..262b14a 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,9 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    # This dict may be referenced again (e.g., a YAML alias), so copy it
+    # before parsing
+    config = dict(**config)
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +29,9 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    # This dict may be referenced again (e.g., a YAML alias), so copy it
+    # before parsing
+    config = dict(**config)
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +102,9 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    # This dict may be referenced again (e.g., a YAML alias), so copy it
+    # before parsing
+    config = dict(**config)
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
-- 
2.43.0


From f3ad5e1d0a8eb7580ea2a7b452e628b83b5c6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 35/60] fix: fromFieldAngles overwrote the caller's field
 angles

---
 batoid/rayVector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index ec9f5e4..7537545 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1085,9 +1085,10 @@ class RayVector:
 
         vx, vy, vz = fieldToDirCos(theta_x, theta_y, projection=projection)
         n = medium.getN(wavelength)
-        vx /= n
-        vy /= n
-        vz /= n
+        # Not in place; some projections return the input angles themselves.
+        vx = vx/n
+        vy = vy/n
+        vz = vz/n
 
         z = stopSurface.surface.sag(x, y)
         x = np.full_like(vx, x)
-- 
2.43.0


From 199b045f7dc86f451585532dffb3a2ac1b644914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 36/60] fix: field-angle projections lose angles near the axis

---
 batoid/utils.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 7d9b94b..25388c1 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -129,14 +129,15 @@ def dirCosToPostel(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
+    wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
     try:
         if wZero:
             return 0.0, 0.0
     except ValueError:
         pass
-    rho = np.arccos(-gamma)
-    srho = np.sin(rho)
+    # arccos(-gamma) would lose small angles
+    srho = np.hypot(alpha, beta)
+    rho = np.arctan2(srho, -gamma)
     with np.errstate(invalid='ignore'):
         u = alpha*rho/srho
         v = beta*rho/srho
@@ -260,15 +261,16 @@ def dirCosToStereographic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
+    wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
     try:
         if wZero:
             return 0.0, 0.0
     except ValueError:
         pass
-    theta = np.arccos(-gamma)
+    # arccos(-gamma) would lose small angles
+    stheta = np.hypot(alpha, beta)
+    theta = np.arctan2(stheta, -gamma)
     rho = 2*np.tan(theta/2)
-    stheta = np.sin(theta)
     with np.errstate(invalid='ignore'):
         u = alpha*rho/stheta
         v = beta*rho/stheta
@@ -358,7 +360,7 @@ def lambertToDirCos(u, v):
         pass
     rho = np.sqrt(rhosqr)
     gamma = (2-rhosqr)/2
-    r = np.sqrt(1-gamma*gamma)
+    r = rho*np.sqrt(1-rhosqr/4)
     with np.errstate(invalid='ignore'):
         alpha = u * r/rho
         beta = v * r/rho
@@ -389,14 +391,15 @@ def dirCosToLambert(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
+    wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
     try:
         if wZero:
             return 0.0, 0.0
     except ValueError:
         pass
-    rho = np.sqrt(2+2*gamma)
-    norm = np.sqrt(1-gamma*gamma)
+    # 1+gamma would lose small angles
+    norm = np.hypot(alpha, beta)
+    rho = norm*np.sqrt(2/(1-gamma))
     with np.errstate(invalid='ignore'):
         u = alpha*rho/norm
         v = beta*rho/norm
-- 
2.43.0


From 7c344f52a23b91af793a4b6af99a95d3edbb3881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 37/60] fix: CoordTransform mangled 2-d coordinate arrays

---
 batoid/coordTransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/coordTransform.py b/batoid/coordTransform.py
index 3f4a08a..0c37ced 100644
--- a/batoid/coordTransform.py
+++ b/batoid/coordTransform.py
@@ -87,7 +87,7 @@ class CoordTransform:
         """
         r = np.array([x, y, z], dtype=float, copy=True).T
         r -= self.dr
-        return self.drot.T@r.T
+        return np.tensordot(self.drot.T, r.T, axes=1)
 
     def applyReverseArray(self, x, y, z):
         """Apply reverse-direction transformation to ndarrays.
@@ -108,7 +108,7 @@ class CoordTransform:
         returns a newly created ndarray.
         """
         r = np.array([x, y, z], dtype=float, copy=True)
-        r = (self.drot@r).T
+        r = np.tensordot(self.drot, r, axes=1).T
         r += self.dr
         return r.T
 
-- 
2.43.0


From 840ae14c98954da2b32979ddf23efb1b3f652510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 38/60] fix: Plane pickled with protocol 0 or 1 comes back
 without its surface

---
 batoid/surface.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index c7ad72d..b248e64 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -171,11 +171,10 @@ class Plane(Surface):
     def __hash__(self):
         return hash("batoid.Plane")
 
-    def __setstate__(self, tup):
-        self.__init__()
-
-    def __getstate__(self):
-        return ()
+    def __reduce__(self):
+        # There's no state.  Note pickle protocols 0 and 1 don't call
+        # __setstate__ when the state is an empty tuple.
+        return (self.__class__, ())
 
     def __eq__(self, rhs):
         return isinstance(rhs, Plane)
-- 
2.43.0


From adecc83d540cb7710e49b440be28134603be029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 39/60] fix: PFS.yaml writes exponents that YAML reads as
 strings, so it cannot be loaded

---
 batoid/data/PFS/PFS.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/data/PFS/PFS.yaml b/batoid/data/PFS/PFS.yaml
index 8b499d6..6df43ed 100644
--- a/batoid/data/PFS/PFS.yaml
+++ b/batoid/data/PFS/PFS.yaml
@@ -152,7 +152,7 @@ opticalSystem:
             type: Asphere
             R: -0.8160784449707
             conic: 0.0
-            coefs: [15.794016512640001, 1.096767066453e5, -5.9917366145880001e7, 1.119542606394e10]
+            coefs: [15.794016512640001, 1.096767066453e+5, -5.9917366145880001e+7, 1.119542606394e+10]
           obscuration:
             type: ClearCircle
             radius: 0.045264242758568948
-- 
2.43.0


From 80b8fbfd65da0e0557aa99cd8c3bc053a53cf114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 40/60] fix: inserting or removing an item dropped the optic's
 R_inner and R_outer

---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index e5d834f..9f43deb 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1713,7 +1713,7 @@ class CompoundOptic(Optic):
             raise ValueError("Optic {} not found".format(before))
         newItems = []
         newDict = dict(self.__dict__)
-        for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
+        for k in ['items', 'itemDict', '_names']:
             newDict.pop(k, None)
         for it in self.items:
             if self.name+'.'+it.name == before:
@@ -1742,7 +1742,7 @@ class CompoundOptic(Optic):
             raise ValueError("Optic {} not found".format(item))
         newItems = []
         newDict = dict(self.__dict__)
-        for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
+        for k in ['items', 'itemDict', '_names']:
             newDict.pop(k, None)
         for it in self.items:
             if self.name+'.'+it.name != item:
-- 
2.43.0


From bc9146f07ae59213ade6ff1bdc771ca8d9c97814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:37 +0000
Subject: [PATCH 41/60] fix: field-angle projections of one-element arrays at
 the axis return arrays

---
 batoid/utils.py | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 25388c1..29e6b66 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -91,11 +91,8 @@ def postelToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
         alpha = u/rho*srho
@@ -130,11 +127,8 @@ def dirCosToPostel(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     # arccos(-gamma) would lose small angles
     srho = np.hypot(alpha, beta)
     rho = np.arctan2(srho, -gamma)
@@ -224,11 +218,8 @@ def stereographicToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     theta = 2*np.arctan(rho/2)
     stheta = np.sin(theta)
     with np.errstate(invalid='ignore'):
@@ -262,11 +253,8 @@ def dirCosToStereographic(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     # arccos(-gamma) would lose small angles
     stheta = np.hypot(alpha, beta)
     theta = np.arctan2(stheta, -gamma)
@@ -353,11 +341,8 @@ def lambertToDirCos(u, v):
     """
     rhosqr = u*u + v*v
     wZero = rhosqr == 0.0
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     rho = np.sqrt(rhosqr)
     gamma = (2-rhosqr)/2
     r = rho*np.sqrt(1-rhosqr/4)
@@ -392,11 +377,8 @@ def dirCosToLambert(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     # 1+gamma would lose small angles
     norm = np.hypot(alpha, beta)
     rho = norm*np.sqrt(2/(1-gamma))
-- 
2.43.0


From 070e86a33362b0aa2143fece3a24bb9faee45b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 42/60] fix: the PFS primary's reflecting face is inside
 silica, not vacuum

---
 batoid/data/PFS/PFS.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/data/PFS/PFS.yaml b/batoid/data/PFS/PFS.yaml
index 6df43ed..fe7133f 100644
--- a/batoid/data/PFS/PFS.yaml
+++ b/batoid/data/PFS/PFS.yaml
@@ -109,6 +109,8 @@ opticalSystem:
           surface:
             type: Sphere
             R: 0.7003206317722
+          inMedium: *silica
+          outMedium: *silica
           obscuration:
             type: ClearCircle
             radius: 0.235
-- 
2.43.0


From 7738783338ef36c314ec409713e66896cecb9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 43/60] fix: traceSplit drops failed rays, which otherwise
 bounce forever

---
 batoid/optic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 9f43deb..0972b05 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1255,10 +1255,11 @@ class CompoundOptic(Optic):
             rForward = [i for i in rForward if i]
             rReverse = [i for i in rReverse if i]
 
-            # Remove vignetted rays and rays with flux below threshold
+            # Remove vignetted rays, failed rays (which are not transformed, so
+            # would bounce forever), and rays with flux below threshold
             for rList in [rForward, rReverse]:
                 for i, rr in enumerate(rList):
-                    w = ~rr.vignetted & (rr.flux >= minFlux)
+                    w = ~rr.vignetted & ~rr.failed & (rr.flux >= minFlux)
                     rList[i] = RayVector(
                         rr.x[w], rr.y[w], rr.z[w],
                         rr.vx[w], rr.vy[w], rr.vz[w],
-- 
2.43.0


From 92dcd0970e9d1b2dd8c1391aa7fac957e6a4929f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 44/60] fix: joining ray batches given in different frames
 moved the rays

---
 batoid/rayVector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 7537545..616e273 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1376,6 +1376,11 @@ class RayVector:
         )
 
 def concatenateRayVectors(rvs):
+    coordSys = rvs[0].coordSys
+    rvs = [
+        rv if rv.coordSys == coordSys else rv.copy().toCoordSys(coordSys)
+        for rv in rvs
+    ]
     return RayVector(
         np.hstack([rv.x for rv in rvs]),
         np.hstack([rv.y for rv in rvs]),
@@ -1388,5 +1393,5 @@ def concatenateRayVectors(rvs):
         np.hstack([rv.flux for rv in rvs]),
         np.hstack([rv.vignetted for rv in rvs]),
         np.hstack([rv.failed for rv in rvs]),
-        rvs[0].coordSys
+        coordSys
     )
-- 
2.43.0


From de7e66a74f43ae2068b78195b58c43f42606c36c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 45/60] fix: get3dmesh of optics with parts of unknown radius

---
 batoid/optic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 0972b05..577e0c5 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1302,10 +1302,15 @@ class CompoundOptic(Optic):
         ys = []
         zs = []
         for item in self.items:
-            x, y, z = item.get3dmesh()
+            mesh = item.get3dmesh()
+            if mesh is None:
+                continue
+            x, y, z = mesh
             xs.append(x)
             ys.append(y)
             zs.append(z)
+        if not xs:
+            return
         return np.hstack(xs), np.hstack(ys), np.hstack(zs)
 
     def draw2d(self, ax, **kwargs):
-- 
2.43.0


From dbc3040e5ae55139d24ea4bcea9e4c1882bbb85b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 46/60] fix: draw2d accepts a list of types to draw, as
 documented

---
 batoid/optic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 577e0c5..bd25e13 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1332,6 +1332,8 @@ class CompoundOptic(Optic):
             Default: None means to draw all types.
         """
         only = kwargs.pop('only', None)
+        if isinstance(only, list):
+            only = tuple(only)
         for item in self.items:
             item_class = item.__class__
             if issubclass(item_class, CompoundOptic):
@@ -1788,7 +1790,9 @@ class Lens(CompoundOptic):
         properties.
         """
         only = kwargs.pop('only', None)
-        if only == Lens:
+        if isinstance(only, list):
+            only = tuple(only)
+        if only == Lens or (isinstance(only, tuple) and Lens in only):
             labelpos = kwargs.pop('labelpos', None)
             fontdict = kwargs.pop('fontdict', None)
             if len(self.items) != 2:
-- 
2.43.0


From d761207a4a4d6b0c41cc6b057577331d7b60632e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 47/60] fix: drawTrace2d and drawTrace3d accept the documented
 globalSys

---
 batoid/optic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index bd25e13..f96dcc5 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1885,7 +1885,8 @@ def getGlobalRays(traceFull, start=None, end=None, globalSys=globalCoordSys):
     return xyz, raylen
 
 
-def drawTrace3d(ax, traceFull, start=None, end=None, plotly=False, **kwargs):
+def drawTrace3d(ax, traceFull, start=None, end=None, plotly=False,
+                globalSys=globalCoordSys, **kwargs):
     """Draw 3D rays in global coordinates on the specified axis.
 
     Parameters
@@ -1905,7 +1906,7 @@ def drawTrace3d(ax, traceFull, start=None, end=None, plotly=False, **kwargs):
     globalSys : `batoid.CoordSys`
         Global coordinate system to use.
     """
-    xyz, raylen = getGlobalRays(traceFull, start, end)
+    xyz, raylen = getGlobalRays(traceFull, start, end, globalSys)
     for line, nline in zip(xyz, raylen):
         if plotly:
             ax.add_scatter3d(
@@ -1918,7 +1919,8 @@ def drawTrace3d(ax, traceFull, start=None, end=None, plotly=False, **kwargs):
             ax.plot(line[0, :nline], line[1, :nline], line[2, :nline], **kwargs)
 
 
-def drawTrace2d(ax, traceFull, start=None, end=None, **kwargs):
+def drawTrace2d(ax, traceFull, start=None, end=None, globalSys=globalCoordSys,
+                **kwargs):
     """Draw 2D rays in global coordinates on the specified axis.
 
     Parameters
@@ -1936,7 +1938,7 @@ def drawTrace2d(ax, traceFull, start=None, end=None, **kwargs):
     globalSys : `batoid.CoordSys`
         Global coordinate system to use.
     """
-    xyz, raylen = getGlobalRays(traceFull, start, end)
+    xyz, raylen = getGlobalRays(traceFull, start, end, globalSys)
     lines = []
     for line, nline in zip(xyz, raylen):
         lines.extend([line[0, :nline], line[2, :nline]])
-- 
2.43.0


From 644b3ce13a6214b307cf748a00f2e322106a964e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 48/60] fix: generate rays travelling exactly along the x axis
 instead of NaNs

---
 batoid/rayVector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 616e273..e892ccb 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -837,6 +837,8 @@ class RayVector:
             vv /= n*np.sqrt(np.dot(vv, vv))
             zhat = -n*vv
             xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            if not np.any(xhat):  # rays travel exactly along the x axis
+                xhat = np.cross(np.array([0.0, 1.0, 0.0]), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
             # backDist is measured from the center of the stop surface
-- 
2.43.0


From a601c87dedd60c17f8e7c34e2021e8ce1ae259a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 49/60] fix: ObscPolygon keeps its own copy of its vertices

---
 batoid/obscuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index b3e7d72..bc7c98f 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -257,8 +257,8 @@ class ObscPolygon(Obscuration):
     """
 
     def __init__(self, xs, ys):
-        self.xs = np.ascontiguousarray(xs, dtype=float)
-        self.ys = np.ascontiguousarray(ys, dtype=float)
+        self.xs = np.array(xs, dtype=float, order="C")
+        self.ys = np.array(ys, dtype=float, order="C")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
-- 
2.43.0


From cc6f9e75c6cacc8cda93879f440ae3030da44294 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 50/60] fix: Asphere keeps its own copy of its coefficients

---
 batoid/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index b248e64..ab3e68b 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from numbers import Integral, Real
 
 import numpy as np
@@ -374,7 +375,7 @@ class Asphere(Surface):
     def __init__(self, R, conic, coefs, imin=2):
         self.R = R
         self.conic = conic
-        self.coefs = coefs
+        self.coefs = copy(coefs)
         self.imin = imin
 
         if not isinstance(imin, Integral):
-- 
2.43.0


From f492fa04c91b94b8df2e0f92953b4a9774b08666 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 51/60] fix: compare and hash Lattices of masked arrays by
 their visible values

---
 batoid/lattice.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/batoid/lattice.py b/batoid/lattice.py
index aa1abab..f9614c3 100644
--- a/batoid/lattice.py
+++ b/batoid/lattice.py
@@ -64,15 +64,21 @@ class Lattice:
 
     def __eq__(self, rhs):
         if not isinstance(rhs, Lattice): return False
+        # Masked values (see batoid.wavefront) are hidden, so don't compare them.
         return (
-            np.array_equal(self.array, rhs.array) and
+            np.array_equal(
+                np.ma.getmaskarray(self.array), np.ma.getmaskarray(rhs.array)
+            ) and
+            np.array_equal(
+                np.ma.filled(self.array, 0), np.ma.filled(rhs.array, 0)
+            ) and
             np.array_equal(self.primitiveVectors, rhs.primitiveVectors)
         )
 
     def __hash__(self):
         return hash((
             "Lattice",
-            tuple(self.array.ravel()),
+            tuple(np.ma.filled(self.array, 0).ravel()),
             tuple(self.primitiveVectors.ravel())
         ))
 
-- 
2.43.0


From 2ec2a998a74d69a226f10c441cd43df027a402d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 52/60] fix: ray generators read past the end of flux arrays
 that do not match the rays, and shared the caller's array

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index e892ccb..77ee5fc 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -830,8 +830,8 @@ class RayVector:
         stopSurface
     ):
         """Map rays backwards to their source position."""
-        if isinstance(flux, Real):
-            flux = np.full(len(x), float(flux))
+        # Copy, since the rays own their fluxes.
+        flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From b0bdf727763e7a610cb3f715874bb51741dedd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 53/60] fix: unknown spacing for RayVector.asSpokes placed rays
 on meaningless radii instead of raising

---
 batoid/rayVector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 77ee5fc..be27d6b 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -802,6 +802,8 @@ class RayVector:
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
                 nspokes = spokes if isinstance(spokes, Integral) else len(spokes)
                 flux = w*area/(2*nspokes)
+            else:
+                raise ValueError("Bad spacing: {}".format(spacing))
         if isinstance(spokes, Integral):
             spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
-- 
2.43.0


From 475010bb8a543fe158ebce9c120a15f06ee818cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 54/60] fix: TableMedium read past the end of tables with fewer
 indices than wavelengths

---
 batoid/medium.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/medium.py b/batoid/medium.py
index 08b19ed..abdfa9e 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -71,6 +71,8 @@ class TableMedium(Medium):
     def __init__(self, wavelengths, ns):
         self.wavelengths = np.array(wavelengths, dtype=float, order='C')
         self.ns = np.array(ns, dtype=float, order='C')
+        if self.wavelengths.ndim != 1 or self.wavelengths.shape != self.ns.shape:
+            raise ValueError("wavelengths and ns must be 1d arrays of equal length")
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
-- 
2.43.0


From f75f1bfd4077b692c25711edb0a299939ab21f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 55/60] fix: ObscPolygon read past the end of coordinates of
 unequal lengths

---
 batoid/obscuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index bc7c98f..89ce71a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -259,6 +259,8 @@ class ObscPolygon(Obscuration):
     def __init__(self, xs, ys):
         self.xs = np.array(xs, dtype=float, order="C")
         self.ys = np.array(ys, dtype=float, order="C")
+        if self.xs.ndim != 1 or self.xs.shape != self.ys.shape:
+            raise ValueError("xs and ys must be 1d arrays of equal length")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
-- 
2.43.0


From 041496731ab5ecc1205c24bee48813a9f0d6f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 56/60] fix: empty lists of obscurations were accepted and
 could not be printed

---
 batoid/obscuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 89ce71a..10f2ea8 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -380,6 +380,8 @@ class ObscUnion(Obscuration):
                 items = [items[0]]
             elif isinstance(items[0], (list, tuple)):
                 items = items[0]
+                if len(items) == 0:
+                    raise ValueError("Not enough items")
             else:
                 raise TypeError("Single input argument must be an Obscuration or a list of them.")
         else:
@@ -462,6 +464,8 @@ class ObscIntersection(Obscuration):
                 items = [items[0]]
             elif isinstance(items[0], (list, tuple)):
                 items = items[0]
+                if len(items) == 0:
+                    raise ValueError("Not enough items")
             else:
                 raise TypeError("Single input argument must be an Obscuration or a list of them.")
         else:
-- 
2.43.0


From d56b1838df134e9a504aa8f8ab36f962107b8bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 57/60] fix: CompoundOptic.trace left rays partly traced when
 its path named an unknown item

---
 batoid/optic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index f96dcc5..aa6e115 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1051,6 +1051,8 @@ class CompoundOptic(Optic):
                 if not item.skip:
                     item.trace(rv, reverse=reverse)
         else:
+            # find all the items before moving any rays
+            pathItems = [self[name] for name in path]
             # establish nominal order of elements by building dict
             # of name -> order
             i = 0
@@ -1063,7 +1065,7 @@ class CompoundOptic(Optic):
             for i in range(len(path)):
             # for i in range(len(path)-1):
                 currentName = path[i]
-                item = self[currentName]
+                item = pathItems[i]
                 # logic to decide when to reverse direction
                 if i == len(path)-1:
                     if nominalOrder[path[i]] == 0:
-- 
2.43.0


From ad9a4d96c634de84b46bc30ddcc9e003021df54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 58/60] fix: spoke-pattern rays accept ring and spoke arrays of
 any numeric type

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index be27d6b..8471837 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -808,8 +808,8 @@ class RayVector:
             spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.array(np.broadcast_to(flux, rings.shape), dtype=float)
-        rings = rings.ravel()
-        spokes = spokes.ravel()
+        rings = rings.ravel().astype(float, casting='same_kind')
+        spokes = spokes.ravel().astype(float, casting='same_kind')
         flux = flux.ravel()
 
         x = rings*np.cos(spokes)
-- 
2.43.0


From ccffcb8084e9788ba302809f4937b1af837142e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 59/60] fix: field-angle projections accept lists and integer
 arrays

---
 batoid/utils.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/batoid/utils.py b/batoid/utils.py
index 29e6b66..9cb0c79 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -18,6 +18,18 @@ def bilinear_fit(ux, uy, kx, ky):
     return x
 
 
+def _asFloat(*args):
+    # Leave plain numbers alone; other numbers become an array of float.
+    out = []
+    for arg in args:
+        if not np.isscalar(arg):
+            arg = np.asanyarray(arg)
+            if arg.dtype.kind in 'biuf':
+                arg = arg.astype(float, copy=False)
+        out.append(arg)
+    return out
+
+
 def gnomonicToDirCos(u, v):
     """Convert gnomonic tangent plane projection u,v to direction cosines.
 
@@ -37,6 +49,7 @@ def gnomonicToDirCos(u, v):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    u, v = _asFloat(u, v)
     gamma = 1/np.sqrt(1.0 + u*u + v*v)
     alpha = u*gamma
     beta = v*gamma
@@ -63,6 +76,7 @@ def dirCosToGnomonic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    alpha, beta, gamma = _asFloat(alpha, beta, gamma)
     u = -alpha / gamma
     v = -beta / gamma
 
@@ -89,6 +103,7 @@ def postelToDirCos(u, v):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    u, v = _asFloat(u, v)
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
     if np.ndim(wZero) == 0 and wZero:
@@ -126,6 +141,7 @@ def dirCosToPostel(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    alpha, beta, gamma = _asFloat(alpha, beta, gamma)
     wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
     if np.ndim(wZero) == 0 and wZero:
         return 0.0, 0.0
@@ -164,6 +180,7 @@ def zemaxToDirCos(u, v):
     z-direction cosine for (u, v) = (0, 1) does not equal the z-direction
     cosine for (u, v) = (0.6, 0.8).
     """
+    u, v = _asFloat(u, v)
     tanu = np.tan(u)
     tanv = np.tan(v)
     norm = np.sqrt(1 + tanu*tanu + tanv*tanv)
@@ -194,6 +211,7 @@ def dirCosToZemax(alpha, beta, gamma):
     z-direction cosine for (u, v) = (0, 1) does not equal the z-direction
     cosine for (u, v) = (0.6, 0.8).
     """
+    alpha, beta, gamma = _asFloat(alpha, beta, gamma)
     return np.arctan(-alpha/gamma), np.arctan(-beta/gamma)
 
 
@@ -216,6 +234,7 @@ def stereographicToDirCos(u, v):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    u, v = _asFloat(u, v)
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
     if np.ndim(wZero) == 0 and wZero:
@@ -252,6 +271,7 @@ def dirCosToStereographic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    alpha, beta, gamma = _asFloat(alpha, beta, gamma)
     wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
     if np.ndim(wZero) == 0 and wZero:
         return 0.0, 0.0
@@ -287,6 +307,7 @@ def orthographicToDirCos(u, v):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    u, v = _asFloat(u, v)
     rho = np.sqrt(u*u + v*v)
     theta = np.arcsin(rho)
     gamma = np.cos(theta)
@@ -314,6 +335,7 @@ def dirCosToOrthographic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    alpha, beta, gamma = _asFloat(alpha, beta, gamma)
     u = alpha
     v = beta
     return u, v
@@ -339,6 +361,7 @@ def lambertToDirCos(u, v):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    u, v = _asFloat(u, v)
     rhosqr = u*u + v*v
     wZero = rhosqr == 0.0
     if np.ndim(wZero) == 0 and wZero:
@@ -376,6 +399,7 @@ def dirCosToLambert(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
+    alpha, beta, gamma = _asFloat(alpha, beta, gamma)
     wZero = (alpha == 0) & (beta == 0) & (gamma < 0)
     if np.ndim(wZero) == 0 and wZero:
         return 0.0, 0.0
-- 
2.43.0


From 2c12a7f6a6d6c89004e9fb05c3c48c14b0b4e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 60/60] fix: an optic can be copied or pickled while another
 thread looks up its parts

---
 batoid/optic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/batoid/optic.py b/batoid/optic.py
index aa6e115..de01ba8 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -45,6 +45,10 @@ class Optic:
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
+    def __getstate__(self):
+        # A snapshot: cached properties may be added while this is traversed.
+        return self.__dict__.copy()
+
     def _repr_helper(self):
         out = ""
         if self.name is not None:
-- 
2.43.0

