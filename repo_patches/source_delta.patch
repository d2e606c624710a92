From 41ef1587405cf36a5b11b76965d01bf712374b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 01/43] fix: allocate the export table at the size that is
 written and returned

---
 SeismicMesh/migration/cpp/cpputils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index f31bd6d..0b07600 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -167,7 +167,7 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 3, -1);
+  pointsToMigrate.resize((1 + num_points) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
@@ -346,7 +346,7 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 4, -1);
+  pointsToMigrate.resize((1 + num_points) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
-- 
2.43.0


From 01d2a0f69f35cac4167254b7f33dc73ad47bdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 02/43] fix: export a vertex to both neighbouring blocks when
 its circumballs reach both

---
 SeismicMesh/migration/cpp/cpputils.cpp | 84 ++++++++++++--------------
 1 file changed, 37 insertions(+), 47 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 0b07600..6736689 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -89,11 +89,10 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   int num_faces = faces.size() / 3;
   int num_points = points.size() / 2;
 
-  // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
-  std::vector<int> exports;
-  exports.resize(num_points, -1);
+  // Determine which ranks to send the vertex to: the block owned by rank-1
+  // (below), the block owned by rank+1 (above), or both
+  std::vector<bool> export_below(num_points, false);
+  std::vector<bool> export_above(num_points, false);
 
   auto vtoe_map = build_vtoe2(points, faces);
 
@@ -149,40 +148,35 @@ std::vector<double> c_where_to2(std::vector<double> &points,
         double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
         Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
         // Does this circumball intersect with box above or box below?
-        bool intersects;
-        intersects = CGAL::do_intersect(circ, rect1);
-        if (intersects){
-            exports[iv] = 0;
-            kount_below += 1.0;
-            break;
+        if (!export_below[iv] && CGAL::do_intersect(circ, rect1)) {
+          export_below[iv] = true;
+          kount_below += 1.0;
         }
-        intersects = CGAL::do_intersect(circ, rect2);
-        if (intersects){
-            exports[iv] = 1;
-            kount_above += 1.0;
-            break;
+        if (!export_above[iv] && CGAL::do_intersect(circ, rect2)) {
+          export_above[iv] = true;
+          kount_above += 1.0;
+        }
+        if (export_below[iv] && export_above[iv]) {
+          break;
         }
       }
     }
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize((1 + num_points) * 3, -1);
+  pointsToMigrate.resize((1 + kount_below + kount_above) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
 
   for (std::size_t iv = 0; iv < num_points; ++iv) {
-    if (exports[iv] == -1){
-        continue;
-    }
-    if (exports[iv] == 0) {
+    if (export_below[iv]) {
       pointsToMigrate[below_count * 3 + 0 + 3] = points[iv * 2];
       pointsToMigrate[below_count * 3 + 1 + 3] = points[iv * 2 + 1];
       pointsToMigrate[below_count * 3 + 2 + 3] = (double)iv;
       below_count += 1.0;
     }
-    else if (exports[iv] ==1){
+    if (export_above[iv]) {
       pointsToMigrate[kount_below * 3 + above_count * 3 + 0 + 3] =
           points[iv * 2];
       pointsToMigrate[kount_below * 3 + above_count * 3 + 1 + 3] =
@@ -229,7 +223,8 @@ where_to2(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 3};
+  ssize_t num_rows = pointsToMigrate.size() / 3;
+  std::vector<ssize_t> shape = {num_rows, 3};
   std::vector<ssize_t> strides = {sodble * 3, sodble};
 
   // return 2-D NumPy array
@@ -252,11 +247,10 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   int num_faces = faces.size() / 4;
   int num_points = points.size() / 3;
 
-  // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
-  std::vector<int> exports;
-  exports.resize(num_points, -1);
+  // Determine which ranks to send the vertex to: the block owned by rank-1
+  // (below), the block owned by rank+1 (above), or both
+  std::vector<bool> export_below(num_points, false);
+  std::vector<bool> export_above(num_points, false);
 
   auto vtoe_map = build_vtoe3(points, faces);
 
@@ -328,41 +322,36 @@ std::vector<double> c_where_to3(std::vector<double> &points,
          double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
          Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
          // Does this circumball intersect with box above or box below?
-         bool intersects;
-         intersects = CGAL::do_intersect(sphere, cube1);
-         if (intersects){
-             exports[iv] = 0;
-             kount_below += 1.0;
-             break;
+         if (!export_below[iv] && CGAL::do_intersect(sphere, cube1)) {
+           export_below[iv] = true;
+           kount_below += 1.0;
+         }
+         if (!export_above[iv] && CGAL::do_intersect(sphere, cube2)) {
+           export_above[iv] = true;
+           kount_above += 1.0;
+         }
+         if (export_below[iv] && export_above[iv]) {
+           break;
          }
-         intersects = CGAL::do_intersect(sphere, cube2);
-         if (intersects){
-              exports[iv] = 1;
-              kount_above += 1.0;
-              break;
-          }
         }
      }
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize((1 + num_points) * 4, -1);
+  pointsToMigrate.resize((1 + kount_below + kount_above) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
 
   for (std::size_t iv = 0; iv < num_points; ++iv) {
-      if (exports[iv] == -1){
-          continue;
-      }
-    if (exports[iv] == 0) {
+    if (export_below[iv]) {
       pointsToMigrate[below_count * 4 + 0 + 4] = points[iv * 3];
       pointsToMigrate[below_count * 4 + 1 + 4] = points[iv * 3 + 1];
       pointsToMigrate[below_count * 4 + 2 + 4] = points[iv * 3 + 2];
       pointsToMigrate[below_count * 4 + 3 + 4] = (double)iv;
       below_count += 1.0;
     }
-    else if (exports[iv] == 1) {
+    if (export_above[iv]) {
       pointsToMigrate[kount_below * 4 + above_count * 4 + 0 + 4] =
           points[iv * 3];
       pointsToMigrate[kount_below * 4 + above_count * 4 + 1 + 4] =
@@ -413,7 +402,8 @@ where_to3(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 4};
+  ssize_t num_rows = pointsToMigrate.size() / 4;
+  std::vector<ssize_t> shape = {num_rows, 4};
   std::vector<ssize_t> strides = {sodble * 4, sodble};
 
   // return 2-D NumPy array
-- 
2.43.0


From 75032b51d39d6f9e576ea72cb34b88e65fa3506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 03/43] fix: test the circumball itself, not the element,
 against the neighbouring blocks

---
 SeismicMesh/migration/cpp/cpputils.cpp | 140 +++++++++++--------------
 1 file changed, 60 insertions(+), 80 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 6736689..1a852d3 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -118,41 +118,34 @@ std::vector<double> c_where_to2(std::vector<double> &points,
       int nm2 = faces[nei_ele * 3 + 1];
       int nm3 = faces[nei_ele * 3 + 2];
 
-      // Test if this element has a bounding box that intersects with one of the rectangles
-      // otherwise go no further
-      std::array<double, 3> ele_x = {points[nm1*2], points[nm2*2], points[nm3*2]};
-      std::array<double, 3> ele_y = {points[nm1*2+1], points[nm2*2+1], points[nm3*2+1]};
-
-      auto min_x = std::min_element(std::begin(ele_x), std::end(ele_x));
-      auto min_y = std::min_element(std::begin(ele_y), std::end(ele_y));
-
-      auto max_x = std::max_element(std::begin(ele_x), std::end(ele_x));
-      auto max_y = std::max_element(std::begin(ele_y), std::end(ele_y));
-
-      CGAL::Bbox_2 ball_bbox = CGAL::Bbox_2(*min_x, *min_y, *max_x, *max_y);
+      // Coordinates of each vertex of element
+      Point pnm1 = Point(points[nm1 * 2], points[nm1 * 2 + 1]);
+      Point pnm2 = Point(points[nm2 * 2], points[nm2 * 2 + 1]);
+      Point pnm3 = Point(points[nm3 * 2], points[nm3 * 2 + 1]);
+      bool isCollinear = CGAL::collinear(pnm1, pnm2, pnm3);
+      // if this happens we cannot test accurately
+      if (isCollinear) {
+        // std::cout<<"point is collinear" << std::endl;
+        continue;
+      }
+      // Calculate circumball of element
+      Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
+      double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
+      Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
 
+      // Test if this circumball has a bounding box that intersects with one of the rectangles
+      // otherwise go no further
+      CGAL::Bbox_2 ball_bbox = circ.bbox();
       if(CGAL::do_overlap(ball_bbox, rect1_bbox) or CGAL::do_overlap(ball_bbox, rect2_bbox)){
-
-        // Coordinates of each vertex of element
-        Point pnm1 = Point(points[nm1 * 2], points[nm1 * 2 + 1]);
-        Point pnm2 = Point(points[nm2 * 2], points[nm2 * 2 + 1]);
-        Point pnm3 = Point(points[nm3 * 2], points[nm3 * 2 + 1]);
-        bool isCollinear = CGAL::collinear(pnm1, pnm2, pnm3);
-        // if this happens we cannot test accurately
-        if (isCollinear) {
-          // std::cout<<"point is collinear" << std::endl;
-          continue;
-        }
-        // Calculate circumball of element
-        Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
-        double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
-        Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
         // Does this circumball intersect with box above or box below?
-        if (!export_below[iv] && CGAL::do_intersect(circ, rect1)) {
+        // NB: a circle is only a curve for CGAL, so test for a box inside of it too
+        if (!export_below[iv] && (CGAL::do_intersect(circ, rect1) or
+                                  circ.has_on_bounded_side(rect1.vertex(0)))) {
           export_below[iv] = true;
           kount_below += 1.0;
         }
-        if (!export_above[iv] && CGAL::do_intersect(circ, rect2)) {
+        if (!export_above[iv] && (CGAL::do_intersect(circ, rect2) or
+                                  circ.has_on_bounded_side(rect2.vertex(0)))) {
           export_above[iv] = true;
           kount_above += 1.0;
         }
@@ -279,62 +272,49 @@ std::vector<double> c_where_to3(std::vector<double> &points,
       int nm3 = faces[nei_ele * 4 + 2];
       int nm4 = faces[nei_ele * 4 + 3];
 
-      // Test if this element has a bounding box that intersects with one of the rectangles
-      // otherwise go no further
-      std::array<double, 4> ele_x = {points[nm1*3], points[nm2*3], points[nm3*3], points[nm4*3]};
-      std::array<double, 4> ele_y = {points[nm1*3+1], points[nm2*3+1], points[nm3*3+1], points[nm4*3+1]};
-      std::array<double, 4> ele_z = {points[nm1*3+2], points[nm2*3+2], points[nm3*3+2], points[nm4*3+2]};
-
-      auto min_x = std::min_element(std::begin(ele_x), std::end(ele_x));
-      auto min_y = std::min_element(std::begin(ele_y), std::end(ele_y));
-      auto min_z = std::min_element(std::begin(ele_z), std::end(ele_z));
+      // Coordinates of each vertex of element
+      Point3 pnm1 =
+          Point3(points[nm1 * 3], points[nm1 * 3 + 1], points[nm1 * 3 + 2]);
+      Point3 pnm2 =
+          Point3(points[nm2 * 3], points[nm2 * 3 + 1], points[nm2 * 3 + 2]);
+      Point3 pnm3 =
+          Point3(points[nm3 * 3], points[nm3 * 3 + 1], points[nm3 * 3 + 2]);
+      Point3 pnm4 =
+          Point3(points[nm4 * 3], points[nm4 * 3 + 1], points[nm4 * 3 + 2]);
+
+      if (volume(pnm1, pnm2, pnm3, pnm4) == 0) {
+        continue;
+      }
 
-      auto max_x = std::max_element(std::begin(ele_x), std::end(ele_x));
-      auto max_y = std::max_element(std::begin(ele_y), std::end(ele_y));
-      auto max_z = std::max_element(std::begin(ele_z), std::end(ele_z));
+      bool isCoplanar = CGAL::coplanar(pnm1, pnm2, pnm3, pnm4);
+      if (isCoplanar) {
+        // std::cout<<"alert"<<std::endl;
+        continue;
+      }
 
-      CGAL::Bbox_3 sphere_bbox = CGAL::Bbox_3(*min_x, *min_y, *min_z, *max_x, *max_y, *max_z);
+      // Calculate circumball of element
+      Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
+      double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
+      Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
 
+      // Test if this circumball has a bounding box that intersects with one of the cuboids
+      // otherwise go no further
+      CGAL::Bbox_3 sphere_bbox = sphere.bbox();
       if(CGAL::do_overlap(sphere_bbox, cuboid1_bbox) or CGAL::do_overlap(sphere_bbox, cuboid2_bbox)){
-
-         // Coordinates of each vertex of element
-         Point3 pnm1 =
-             Point3(points[nm1 * 3], points[nm1 * 3 + 1], points[nm1 * 3 + 2]);
-         Point3 pnm2 =
-             Point3(points[nm2 * 3], points[nm2 * 3 + 1], points[nm2 * 3 + 2]);
-         Point3 pnm3 =
-             Point3(points[nm3 * 3], points[nm3 * 3 + 1], points[nm3 * 3 + 2]);
-         Point3 pnm4 =
-             Point3(points[nm4 * 3], points[nm4 * 3 + 1], points[nm4 * 3 + 2]);
-
-         if (volume(pnm1, pnm2, pnm3, pnm4) == 0) {
-           continue;
-         }
-
-         bool isCoplanar = CGAL::coplanar(pnm1, pnm2, pnm3, pnm4);
-         if (isCoplanar) {
-           // std::cout<<"alert"<<std::endl;
-           continue;
-         }
-
-         // Calculate circumball of element
-         Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
-         double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
-         Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
-         // Does this circumball intersect with box above or box below?
-         if (!export_below[iv] && CGAL::do_intersect(sphere, cube1)) {
-           export_below[iv] = true;
-           kount_below += 1.0;
-         }
-         if (!export_above[iv] && CGAL::do_intersect(sphere, cube2)) {
-           export_above[iv] = true;
-           kount_above += 1.0;
-         }
-         if (export_below[iv] && export_above[iv]) {
-           break;
-         }
+        // Does this circumball intersect with box above or box below?
+        if (!export_below[iv] && CGAL::do_intersect(sphere, cube1)) {
+          export_below[iv] = true;
+          kount_below += 1.0;
+        }
+        if (!export_above[iv] && CGAL::do_intersect(sphere, cube2)) {
+          export_above[iv] = true;
+          kount_above += 1.0;
+        }
+        if (export_below[iv] && export_above[iv]) {
+          break;
         }
-     }
+      }
+    }
   }
 
   std::vector<double> pointsToMigrate;
-- 
2.43.0


From cfa996ea3312067f0add3257d15b7d1cedd98144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 04/43] fix: always exchange a (possibly empty) message with
 both neighbours

---
 SeismicMesh/migration/migration.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index 8987a72..5f42624 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -152,32 +152,26 @@ def exchange(comm, rank, size, exports, dim=2):
     NSB = int(exports[0, 0])
     NSA = int(exports[0, 1])
 
-    if NSB == 0 and NSA == 0:
-        return np.array([[]])
-
-    tmp = []
+    # nb: the neighbors always wait for a message, so send even if it is empty
+    tmp = [np.empty((0, dim))]
     # send points below
-    if NSB != 0 and (rank != 0):  # rank 0 can't send below
+    if rank != 0:  # rank 0 can't send below
         comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
 
     # receive points from above
     if rank != size - 1:
-        dat_recv = comm.recv(source=rank + 1, tag=11)
-        for p in dat_recv:
-            tmp.append(p)
+        tmp.append(comm.recv(source=rank + 1, tag=11))
 
     # send points above
-    if NSA != 0 and rank != (size - 1):  # topmost rank can't send to above
+    if rank != (size - 1):  # topmost rank can't send to above
         # all put the topmost rank receive from above
         comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)
 
     # receive points from below
     if rank != 0:
         # all but the bottommost rank receive from below
-        dat_recv = comm.recv(source=rank - 1, tag=11)
-        for p in dat_recv:
-            tmp.append(p)
+        tmp.append(comm.recv(source=rank - 1, tag=11))
 
-    new_points = np.array(tmp)
+    new_points = np.concatenate(tmp, axis=0)
 
     return new_points
-- 
2.43.0


From ba08df2e3c413258c2939863e64b605969fedb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 05/43] fix: drop exactly the inserted ghost vertices after
 each parallel iteration

---
 SeismicMesh/generation/mesh_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7b73b33..5b4c890 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -507,7 +507,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-            p = np.delete(p, inv[-recv_ix::], axis=0)
+            p = p[: len(p) - recv_ix]
 
         # Show the user some progress so they know something is happening
         if comm.rank == 0:
@@ -719,9 +719,11 @@ def _add_ghost_vertices(p, t, dt, extents, comm):
     dim = p.shape[1]
     exports = migration.enqueue(extents, p, t, comm.rank, comm.size, dim=dim)
     recv = migration.exchange(comm, comm.rank, comm.size, exports, dim=dim)
-    recv_ix = len(recv)
+    num_owned = len(p)
     dt.insert(recv.ravel().tolist())
     p, t = _get_topology(dt)
+    # ghosts come after the owned vertices (received duplicates are not inserted)
+    recv_ix = len(p) - num_owned
     p, t, inv = geometry.remove_external_entities(
         p,
         t,
-- 
2.43.0


From ed546e6f482f0fcb77ce9cdc30723bcc5ef7f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/43] fix: leave no unused vertex or inverted cell behind the
 final projection

---
 SeismicMesh/generation/mesh_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 5b4c890..4c85c08 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -491,6 +491,8 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
+                # projecting and removing may flip cells and orphan vertices
+                p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
 
         # Compute the forces on the edges
-- 
2.43.0


From d03d717ec6b835c6b0b4da67fb1429dcc1b78af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 07/43] fix: stop on all ranks when one rank has no initial
 points

---
 SeismicMesh/generation/mesh_generator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 4c85c08..21c789a 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -825,6 +825,7 @@ def _generate_initial_points(h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf)
 
     # Remove points outside the region, apply the rejection method
     p = p[fd(p) < geps]  # Keep only d<0 points
+    _check_all_ranks_have_points(p, comm)
     r0 = fh(p)
     if opts["r0m_is_h0"]:
         # Ideally, r0m should be h0 <= r0m < r0.min(), if h0<r0.min(),
@@ -852,10 +853,19 @@ def _generate_initial_points(h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf)
             p[np.random.rand(p.shape[0]) < r0m**dim / r0**dim],
         )
     )
+    _check_all_ranks_have_points(p, comm)
     extents = _form_extents(p, h0, comm, opts)
     return fh, p, extents
 
 
+def _check_all_ranks_have_points(p, comm):
+    """All ranks stop if one has nothing to mesh (the others would wait for it forever)"""
+    num_points = len(p)
+    if comm.size > 1:
+        num_points = comm.allreduce(num_points, op=MPI.MIN)
+    assert num_points > 0, "No vertices to mesh with!"
+
+
 def _initialize_points(dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
     """Form initial point set to mesh with"""
     points = opts["points"]
-- 
2.43.0


From 86c1a8a929589f16a08e793966afba60dd430811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 08/43] fix: decompose points into one block each, along the
 axis that was asked for

---
 SeismicMesh/decomp/blocker.py | 108 +++++-----------------------------
 1 file changed, 14 insertions(+), 94 deletions(-)

diff --git a/SeismicMesh/decomp/blocker.py b/SeismicMesh/decomp/blocker.py
index 979d74c..89e4dc5 100644
--- a/SeismicMesh/decomp/blocker.py
+++ b/SeismicMesh/decomp/blocker.py
@@ -3,109 +3,29 @@ import numpy as np
 
 def blocker(points, rank, num_blocks, axis=0):
     """Decompose point coordinates into # of blocks
-    Blocks are orientated parallel to axis and have two neighbors
+    The blocks are slices that cut `axis` and have two neighbors
     above and below/left and right to the block depending on axis.
+    Each point belongs to exactly one block.
     """
     num_points, dim = points.shape
-    EPS = np.finfo(float).eps
 
     if dim < 2 or dim > 3:
         raise ValueError("Dimensions of points are not supported")
+    if axis < 0 or axis >= dim:
+        raise ValueError("Axis to decompose is not supported")
     assert num_points // num_blocks > 1, "too few points for chosen num_blocks"
 
-    x_lims = points[:, 0].min() - EPS, points[:, 0].max() + EPS
-    y_lims = points[:, 1].min() - EPS, points[:, 1].max() + EPS
-    if dim > 2:
-        z_lims = points[:, 2].min() - EPS, points[:, 2].max() + EPS
+    coord = points[:, axis]
+    # a point on the limit of two blocks belongs to the upper one
+    limits = np.linspace(coord.min(), coord.max(), num_blocks + 1)[1:-1]
+    owner = np.searchsorted(limits, coord, side="right")
 
-    if axis == 0:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-            )
+    blocks = [points[owner == b] for b in range(num_blocks)]
+    assert all(len(block) for block in blocks), "a block has no points"
 
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-            dz = (z_lims[1] - z_lims[0]) / 1
-
-    elif axis == 1:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-            dz = (z_lims[1] - z_lims[0]) / 1
-    elif axis == 2:
-        xx, yy, zz = np.meshgrid(
-            np.linspace(*x_lims, 1, endpoint=False),
-            np.linspace(*y_lims, num_blocks, endpoint=False),
-            np.linspace(*z_lims, num_blocks, endpoint=False),
-        )
-
-        dx = (x_lims[1] - x_lims[0]) / 1
-        dy = (y_lims[1] - y_lims[0]) / 1
-        dz = (z_lims[1] - z_lims[0]) / num_blocks
-
-    blocks = []
-    block_extents = []
-
-    if dim == 2:
-        for low_x, low_y in zip(xx.ravel(), yy.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y max x max y
-            block_extents.append([tmpm[0], tmpm[1], tmpp[0], tmpp[1]])
-    elif dim == 3:
-        for low_x, low_y, low_z in zip(xx.ravel(), yy.ravel(), zz.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-                & (points[:, 2] >= low_z)
-                & (points[:, 2] <= low_z + dz)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y min z max x max y max z
-            block_extents.append([tmpm[0], tmpm[1], tmpm[2], tmpp[0], tmpp[1], tmpp[2]])
+    # min x min y (min z) max x max y (max z)
+    block_extents = [
+        [*np.amin(block, axis=0), *np.amax(block, axis=0)] for block in blocks
+    ]
 
     return blocks, block_extents
-- 
2.43.0


From 456824aababc8e1b0140135a5fe7083da8295200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 09/43] fix: size user-supplied points in parallel as in
 serial, and fail on all ranks

---
 SeismicMesh/generation/mesh_generator.py | 32 ++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 21c789a..b9eb462 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -788,19 +788,29 @@ def _project_points_back_newton(p, fd, deps, hmin, idx):
     return p
 
 
-def _user_defined_points(dim, fh, h0, bbox, points, comm, opts):
+def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
     """If the user has supplied initial points"""
     if comm.size > 1:
         # Domain decompose and localize points
-        p = None
+        axis = opts["axis"]
+        blocks, extents, error = None, None, None
         if comm.rank == 0:
-            blocks, extents = decomp.blocker(
-                points=points, rank=comm.rank, num_blocks=comm.size, axis=opts["axis"]
-            )
-        else:
-            blocks = None
-            extents = None
-        fh = migration.localize_sizing_function(fh, h0, bbox, dim, opts["axis"], comm)
+            try:
+                blocks, extents = decomp.blocker(
+                    points=points, rank=comm.rank, num_blocks=comm.size, axis=axis
+                )
+            except (AssertionError, ValueError) as e:
+                error = e
+        # all ranks stop if the points can't be decomposed
+        error = comm.bcast(error, 0)
+        if error is not None:
+            raise error
+        if lsf:
+            if comm.rank == 0:
+                # the blocks slice the span of the points, not the bbox
+                bbox = bbox.astype(float)
+                bbox[axis] = points[:, axis].min(), points[:, axis].max()
+            fh = migration.localize_sizing_function(fh, h0, bbox, dim, axis, comm)
         # send points to each subdomain
         p, extents = migration.localize_points(blocks, extents, comm, dim)
     else:
@@ -874,7 +884,9 @@ def _initialize_points(dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
             h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf
         )
     else:
-        fh, p, extents = _user_defined_points(dim, fh, h0, bbox, points, comm, opts)
+        fh, p, extents = _user_defined_points(
+            dim, fh, h0, bbox, points, comm, opts, lsf
+        )
     return fh, p, extents
 
 
-- 
2.43.0


From 30db1169ed8a6678e3104beb677ee9325bdad5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 10/43] fix: overlap the blocks of user-supplied points as
 those of generated points

---
 SeismicMesh/generation/mesh_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index b9eb462..6295b66 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -812,7 +812,9 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
                 bbox[axis] = points[:, axis].min(), points[:, axis].max()
             fh = migration.localize_sizing_function(fh, h0, bbox, dim, axis, comm)
         # send points to each subdomain
-        p, extents = migration.localize_points(blocks, extents, comm, dim)
+        p, _ = migration.localize_points(blocks, extents, comm, dim)
+        # overlap the blocks like it's done with generated points
+        extents = _form_extents(p, h0, comm, opts)
     else:
         p = points
         extents = None
-- 
2.43.0


From 97d6421cce9544389bd0228b9c8be177282c5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 11/43] fix: subtract every domain from the first in a smooth
 difference of three or more

---
 SeismicMesh/geometry/signed_distance_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 438dc39..fde2dd0 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -420,7 +420,8 @@ class Difference:
             )
         else:
             d = [d.eval(x) for d in self.domains]
-            return _loop_call(self._smooth_difference, d[::-1])
+            # subtract one domain after the other from the first
+            return _loop_call(lambda d1, d2: self._smooth_difference(d2, d1), d)
 
     def show(self, filename=None, samples=10000):
         _show(self, filename=None, samples=samples)
-- 
2.43.0


From 858637481e329b9f77e34435b6f0e3fb387a5017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 12/43] fix: move the bounding box and corners along with a
 stretched, rotated or translated shape

---
 .../geometry/signed_distance_functions.py     | 111 +++---------------
 1 file changed, 19 insertions(+), 92 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index fde2dd0..fe78032 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -102,12 +102,23 @@ def _manipulate(object, x):
 
 
 def _configure_manipulations(object):
+    # the corners of the shape's box are moved along with the shape
+    object.hull = corners(object.bbox)
     object = _build_stretch(object)
     object = _build_rotation(object)
     object = _build_translation(object)
+    if getattr(object, "corners", None) is not None:
+        object.corners = object.hull
     return object
 
 
+def _move_hull(object, hull):
+    """Set the box's corners and the bounding box that contains them"""
+    object.hull = hull
+    mins, maxs = np.min(hull, axis=0), np.max(hull, axis=0)
+    object.bbox = tuple(b for lims in zip(mins, maxs) for b in lims)
+
+
 def _scale_back(object, x):
     sd = object.dim
     x = x.T
@@ -128,41 +139,21 @@ def _rotate_back(object, x, R_inv):
     return np.dot(R_inv, x.T).T
 
 def _build_stretch(object):
-    sd = object.dim
     if object.v is not None:
         assert (
             len(object.v) == object.dim
         ), "Length of stretch vector does not equal dimension"
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
-        object.v /= object.alpha
-        _corners = corners(object.bbox)
-        vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
-        tmp = (vx * object.alpha + (_corners - vx)).T
-        if sd == 2:
-            object.bbox = (
-                np.min(tmp[0]),
-                np.max(tmp[0]),
-                np.min(tmp[1]),
-                np.max(tmp[1]),
-            )
-        elif sd == 3:
-            object.bbox = (
-                np.min(tmp[0]),
-                np.max(tmp[0]),
-                np.min(tmp[1]),
-                np.max(tmp[1]),
-                np.min(tmp[2]),
-                np.max(tmp[2]),
-            )
-        object.corners = corners(object.bbox)
+        object.v = np.asarray(object.v) / object.alpha
+        vx = np.multiply.outer(np.dot(object.v, object.hull.T), object.v)
+        _move_hull(object, vx * object.alpha + (object.hull - vx))
     return object
 
 
 def _build_rotation(object):
     # object.rotation = [a,b,c] that means rotate by a on x axis, by b on y
     # axis and by c on z axis
-    bbox_x = bbox_y = bbox_z = object.bbox
     if object.dim == 2:
         object.R = np.array(
             [
@@ -172,15 +163,7 @@ def _build_rotation(object):
         )
         object.Rx_inv = object.R.T
         if object.rotation[0] != 0.0:
-            object.corners = corners(object.bbox)
-            tmp = np.dot(object.R, object.corners.T).T
-            object.bbox = (
-                np.min(tmp[:, 0]),
-                np.max(tmp[:, 0]),
-                np.min(tmp[:, 1]),
-                np.max(tmp[:, 1]),
-            )
-            object.corners = corners(object.bbox)
+            _move_hull(object, np.dot(object.R, object.hull.T).T)
     elif object.dim == 3:
         object.Rx = np.array(
             [
@@ -207,50 +190,9 @@ def _build_rotation(object):
         object.Ry_inv = object.Ry.T
         object.Rz_inv = object.Rz.T
         if  reduce((lambda x, y: x or y), object.rotation):
-            object.corners = corners(object.bbox)
-            tmp_x = tmp_y = tmp_z = 0.0
-            if object.rotation[0] != 0.0:
-                tmp_x = np.dot(object.Rx, object.corners.T).T
-                bbox_x = (
-                    np.min(tmp_x[:, 0]),
-                    np.max(tmp_x[:, 0]),
-                    np.min(tmp_x[:, 1]),
-                    np.max(tmp_x[:, 1]),
-                    np.min(tmp_x[:, 2]),
-                    np.max(tmp_x[:, 2]),
-                )
-            if object.rotation[1] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_y = np.dot(object.Ry, object.corners.T).T
-                bbox_y = (
-                    np.min(tmp_y[:, 0]),
-                    np.max(tmp_y[:, 0]),
-                    np.min(tmp_y[:, 1]),
-                    np.max(tmp_y[:, 1]),
-                    np.min(tmp_y[:, 2]),
-                    np.max(tmp_y[:, 2]),
-                )
-            if object.rotation[2] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_z = np.dot(object.Rz, object.corners.T).T
-                bbox_z = (
-                    np.min(tmp_z[:, 0]),
-                    np.max(tmp_z[:, 0]),
-                    np.min(tmp_z[:, 1]),
-                    np.max(tmp_z[:, 1]),
-                    np.min(tmp_z[:, 2]),
-                    np.max(tmp_z[:, 2]),
-                )
-            c = 0
-            object.bbox = []
-            for i,j,k in zip(bbox_x, bbox_y, bbox_z):
-                if c%2 == 0:
-                    object.bbox.append(min(i,j,k))
-                else:
-                    object.bbox.append(max(i,j,k))
-                c+=1
-            object.bbox = tuple(object.bbox)
-            object.corners = corners(object.bbox)
+            # nb: evaluating undoes the rotation on the x axis first
+            R = np.dot(object.Rx, np.dot(object.Ry, object.Rz))
+            _move_hull(object, np.dot(R, object.hull.T).T)
     return object
 
 
@@ -261,22 +203,7 @@ def _build_translation(object):
             len(v) == object.dim
         ), "Length of translation vector does not equal dimension"
     if v is not None:
-        if object.dim == 2:
-            object.bbox = (
-                object.bbox[0] + v[0],
-                object.bbox[1] + v[0],
-                object.bbox[2] + v[1],
-                object.bbox[3] + v[1],
-            )
-        elif object.dim == 3:
-            object.bbox = (
-                object.bbox[0] + v[0],
-                object.bbox[1] + v[0],
-                object.bbox[2] + v[1],
-                object.bbox[3] + v[1],
-                object.bbox[4] + v[2],
-                object.bbox[5] + v[2],
-            )
+        _move_hull(object, object.hull + np.asarray(v))
     return object
 
 
-- 
2.43.0


From c87b5b20adae47252a75971c7bc3960f17fa4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 13/43] fix: leave the velocity data passed in by the user as
 it is

---
 SeismicMesh/sizing/mesh_size_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 40de5de..f6f71d6 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -145,10 +145,10 @@ def get_sizing_function_from_segy(
 
         if sz_opts["units"] == "km-s":
             print("Converting from km-s to m-s...", flush=True)
-            vp *= 1000.0
+            vp = vp * 1000.0
         elif sz_opts["units"] == "ft-s":
             print("Converting from ft-s to m-s...", flush=True)
-            vp *= 0.30
+            vp = vp * 0.30
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
@@ -162,6 +162,7 @@ def get_sizing_function_from_segy(
                     "vp_water is None or out of bounds. It should be >1300 and <1800 m/s"
                 )
             else:
+                vp = vp.copy()
                 vp[pos] = sz_opts["vp_water"]  # vp_water in m/s
 
         # check the bbox
-- 
2.43.0


From a04c5ae6e66e32e3064c9b86949297b2ba38795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 14/43] fix: replace water velocities also when they are only
 in the first row

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index f6f71d6..823a9c6 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -152,7 +152,7 @@ def get_sizing_function_from_segy(
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-        if len(pos) > 0 and any(pos[0]):
+        if pos[0].size > 0:
             if (
                 sz_opts["vp_water"] is None
                 or sz_opts["vp_water"] < 1300
-- 
2.43.0


From deaae545f3c379d15972dfac3ecc708da7327952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 15/43] fix: a foot is 0.3048 m

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 823a9c6..281521e 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -148,7 +148,7 @@ def get_sizing_function_from_segy(
             vp = vp * 1000.0
         elif sz_opts["units"] == "ft-s":
             print("Converting from ft-s to m-s...", flush=True)
-            vp = vp * 0.30
+            vp = vp * 0.3048
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-- 
2.43.0


From 81519cc79ea68b68fcdb38fae8497ae9402eeb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 16/43] fix: limit the gradation along all axes of grids with
 unequal spacing

---
 SeismicMesh/sizing/mesh_size_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 281521e..a6b5749 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -221,8 +221,9 @@ def get_sizing_function_from_segy(
             vp, cell_size, sz_opts["cr_max"], sz_opts["dt"], sz_opts["space_order"]
         )
 
+        # nb: the grid spacing can differ between the axes
         cell_size = _enforce_gradation_sizing(
-            cell_size, sz_opts["grade"], (bbox[1] - bbox[0]) / nz
+            cell_size, sz_opts["grade"], min(_get_dimensions(vp, bbox)[dim:])
         )
 
         cell_size, vp, bbox = _build_domain_pad(cell_size, vp, bbox, sz_opts)
-- 
2.43.0


From 2ce108469c4d5e5d4a3327e35079a71edf44f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 17/43] fix: refuse h0=0 and max_iter=0 as the messages say
 (max_iter=0 never ended)

---
 SeismicMesh/generation/mesh_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 6295b66..94adcb2 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -161,10 +161,10 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         h0 = sliver_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
-    if sliver_opts["max_iter"] < 0:
+    if sliver_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
     max_iter = sliver_opts["max_iter"]
 
@@ -411,7 +411,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         h0 = gen_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
     # these parameters originate from the original DistMesh
@@ -436,7 +436,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         dim, geps, bbox, fh, fd, h0, gen_opts, pfix, comm, lsf
     )
 
-    if gen_opts["max_iter"] < 0:
+    if gen_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
 
     max_iter = gen_opts["max_iter"]
-- 
2.43.0


From 044b5a4a814974bd5754f4444379813668053dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 18/43] fix: point to the right entities if a vertex is in none

---
 SeismicMesh/geometry/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 600481b..434caa7 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -120,10 +120,8 @@ def vertex_to_entities(vertices, entities, dim=2):
     ve = np.hstack((ve, ext))
     ve = ve[ve[:, 0].argsort(), :]
 
-    idx = np.insert(np.diff(ve[:, 0]), 0, 0)
-    vtoe_pointer = np.argwhere(idx)
-    vtoe_pointer = np.insert(vtoe_pointer, 0, 0)
-    vtoe_pointer = np.append(vtoe_pointer, num_entities * (dim + 1))
+    # nb: vertices may be in no entity
+    vtoe_pointer = np.searchsorted(ve[:, 0], np.arange(len(vertices) + 1))
 
     vtoe = ve[:, 1]
 
-- 
2.43.0


From e16b566c78dc7fb69cd23409bd98a928ffd04885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 19/43] fix: wind all the boundary loops of a mesh

---
 SeismicMesh/geometry/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 434caa7..e5aa3f3 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -348,7 +348,11 @@ def get_winded_boundary_edges(entities):
         rows = locs[:, 0]
         choices = [row for row in rows if isVisited[row] == 0]
         if len(choices) == 0:
-            break
+            # this loop is closed, continue with another one (e.g., a hole)
+            choices = np.flatnonzero(isVisited == 0)
+            if len(choices) == 0:
+                break
+            vNext = _bedges[choices[0], 0]
         choice = choices[0]
         ordering = np.append(ordering, [choice])
         isVisited[choice] = 1
-- 
2.43.0


From 438c1bc54810915cfc2488de09ff40ba59e7e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 20/43] fix: merge duplicate vertices that lie at 0 and at -0

---
 SeismicMesh/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index e5aa3f3..9f3dde5 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -224,7 +224,8 @@ def fix_mesh(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True)
 
     # duplicate vertices
     snap = (p.max(0) - p.min(0)).max() * ptol
-    _, ix, jx = unique_rows(np.round(p / snap) * snap, True, True)
+    # nb: adding 0 makes -0 to 0, the rows are compared byte by byte
+    _, ix, jx = unique_rows(np.round(p / snap) * snap + 0.0, True, True)
 
     p = p[ix]
     t = jx[t]
-- 
2.43.0


From 553e1c83c4d22a656b34146578fac3150c738b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 21/43] fix: don't smooth the fixed points of a 2D mesh away

---
 SeismicMesh/generation/mesh_generator.py | 8 +++++---
 SeismicMesh/geometry/utils.py            | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 94adcb2..91d0cc4 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -487,7 +487,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 print_msg1(
                     "Termination reached...maximum number of iterations reached.",
                 )
-            p, t = _termination(p, t, gen_opts, comm, verbose=gen_opts["verbose"])
+            p, t = _termination(
+                p, t, gen_opts, comm, verbose=gen_opts["verbose"], pfix=pfix
+            )
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
@@ -654,7 +656,7 @@ def _parse_kwargs(kwargs):
             )
 
 
-def _termination(p, t, opts, comm, sliver=False, verbose=1):
+def _termination(p, t, opts, comm, sliver=False, verbose=1, pfix=None):
     """Shut it down when reacing `max_iter`"""
     dim = p.shape[1]
     if comm.size > 1 and sliver is False:
@@ -668,7 +670,7 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1):
         )
         # only do Laplacian smoothing if no immersed domains
         if opts["subdomains"] is None and opts["mesh_improvement"]:
-            p, t = geometry.laplacian2_fixed_point(p, t)
+            p, t = geometry.laplacian2_fixed_point(p, t, pfix=pfix)
             # p, t = geometry.laplacian2(p, t, verbose=verbose)
     # perform linting if asked
     if comm.rank == 0 and opts["perform_checks"]:
diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 9f3dde5..0fb8bf3 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -494,7 +494,7 @@ def _sparse(Ix, J, S, shape=None, dtype=None):
     return spsparse.coo_matrix((S, (II, J)), shape, dtype)
 
 
-def laplacian2_fixed_point(vertices, entities):
+def laplacian2_fixed_point(vertices, entities, pfix=None):
     """Solve the laplacian smoothing problem as a fixed point problem
     solve this once, i.e., (I - A) x = rhs vs.
     repeating this x_{n+1} = A x_n
@@ -503,6 +503,8 @@ def laplacian2_fixed_point(vertices, entities):
     :type vertices: numpy.ndarray[`float` x dim]
     :param entities: the mesh connectivity
     :type entities: numpy.ndarray[`int` x (dim+1)]
+    :param pfix: coordinates that you don't wish to move
+    :type pfix: array-like
 
     :return vertices: updated vertices of mesh
     :rtype: numpy.ndarray[`float` x dim]
@@ -528,6 +530,9 @@ def laplacian2_fixed_point(vertices, entities):
     matrix = matrix.tocsr()
 
     bnd = get_boundary_vertices(entities)
+    if pfix is not None:
+        ifix = [np.argmin(((vertices - fix) ** 2).sum(1)) for fix in pfix]
+        bnd = np.union1d(bnd, np.asarray(ifix, dtype=int))
 
     # Apply Dirichlet conditions.
     # Set all Dirichlet rows to 0.
-- 
2.43.0


From 7e795b4cf8edaecaadeb9764eb9c58e8434b6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 22/43] fix: constrain only the corners near the level set, not
 those outside the domain

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 91d0cc4..024a17f 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -425,7 +425,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
     pfix, nfix = _unpack_pfix(dim, gen_opts, comm)
     if corners is not None and comm.size == 1:
         # keep corners only near level set
-        corners = corners[fd(corners) > -1000 * deps]
+        corners = corners[np.abs(fd(corners)) < 1000 * deps]
         pfix = np.append(pfix, corners, axis=0)
         nfix = len(pfix)
 
-- 
2.43.0


From d2bf87cd30fa5c2d507a05588726acfa30e77f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 23/43] fix: compute the circumballs of all the triangles, not
 of half of them

---
 SeismicMesh/generation/cpp/delaunay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/cpp/delaunay.cpp b/SeismicMesh/generation/cpp/delaunay.cpp
index 44be70f..7435745 100644
--- a/SeismicMesh/generation/cpp/delaunay.cpp
+++ b/SeismicMesh/generation/cpp/delaunay.cpp
@@ -143,7 +143,7 @@ namespace py = pybind11;
 py::array circumballs2(
     py::array_t<double, py::array::c_style | py::array::forcecast> vertices) {
   // each triangle has 3 vertices with 2 coordinates each
-  int sz = vertices.shape()[0];
+  int sz = vertices.size();
   std::vector<double> cppvertices(sz);
   std::memcpy(cppvertices.data(), vertices.data(), sz * sizeof(double));
   std::vector<double> circumcenters = c_circumballs2(cppvertices);
-- 
2.43.0


From a4ac7cdac0cfe64b4ad51e8d4bcedc61b72ca2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 24/43] fix: stop on all ranks when the movement indicates a
 convergence problem

---
 SeismicMesh/generation/mesh_generator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 024a17f..d29d945 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -513,16 +513,20 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             # If continuing on, delete ghost points
             p = p[: len(p) - recv_ix]
 
+        maxdp = delta_t * np.sqrt((Ftot**2).sum(1)).max()
+        # if there's a problem all ranks stop (the others would wait forever)
+        if comm.size > 1:
+            maxdp = comm.allreduce(maxdp, op=MPI.MAX)
+
         # Show the user some progress so they know something is happening
         if comm.rank == 0:
-            maxdp = delta_t * np.sqrt((Ftot**2).sum(1)).max()
             print_msg2(
                 "Iteration #%d, max movement is %f, there are %d vertices and %d cells"
                 % (count + 1, maxdp, len(p), len(t)),
             )
-            assert (
-                maxdp < 1000 * h0
-            ), "max movement indicates there's a convergence problem"
+        assert (
+            maxdp < 1000 * h0
+        ), "max movement indicates there's a convergence problem"
 
         count += 1
 
-- 
2.43.0


From 0f3a8879471257ec0e60ddc1ad418f47f0a133d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 25/43] fix: solve the smoothing problem for the free vertices
 only, its AMG diverged

---
 SeismicMesh/geometry/utils.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 0fb8bf3..888ad67 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -535,22 +535,20 @@ def laplacian2_fixed_point(vertices, entities, pfix=None):
         bnd = np.union1d(bnd, np.asarray(ifix, dtype=int))
 
     # Apply Dirichlet conditions.
-    # Set all Dirichlet rows to 0.
-    for b in bnd:
-        matrix.data[matrix.indptr[b] : matrix.indptr[b + 1]] = 0.0
-    # Set the diagonal and RHS.
-    d = matrix.diagonal()
-    d[bnd] = 1.0
-    matrix.setdiag(d)
-
-    rhs = np.zeros((n, 2))
-    rhs[bnd] = vertices[bnd]
-
-    # vertices_new = spsolve(matrix, rhs)
-
-    # use AMG
-    ml = pyamg.ruge_stuben_solver(matrix)
-    vertices_new = np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])])
+    # nb: only the system of the other vertices is symmetric, which AMG needs
+    free = np.setdiff1d(np.arange(n), bnd)
+    vertices_new = np.array(vertices, dtype=float)
+    if len(free) > 0:
+        rhs = -matrix[free][:, bnd].dot(vertices[bnd])
+
+        # use AMG
+        ml = pyamg.ruge_stuben_solver(matrix[free][:, free].tocsr())
+        vertices_new[free] = np.column_stack(
+            [
+                ml.solve(rhs[:, d], x0=vertices_new[free, d], tol=1e-10, accel="cg")
+                for d in range(2)
+            ]
+        )
 
     return vertices_new, entities
 
-- 
2.43.0


From 07ef6e9801fca67d74b61da989869d3a0d6e799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 26/43] fix: a flat triangle has quality 0, not NaN (it was
 never deleted)

---
 SeismicMesh/geometry/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 888ad67..7b08045 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -268,8 +268,10 @@ def simp_qual(p, t):
     a = length(p[t[:, 1]] - p[t[:, 0]])
     b = length(p[t[:, 2]] - p[t[:, 0]])
     c = length(p[t[:, 2]] - p[t[:, 1]])
-    r = 0.5 * np.sqrt((b + c - a) * (c + a - b) * (a + b - c) / (a + b + c))
-    R = a * b * c / np.sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c))
+    # nb: round-off must not make a flat triangle's quality NaN
+    s1, s2, s3 = np.maximum([b + c - a, c + a - b, a + b - c], 0.0)
+    r = 0.5 * np.sqrt(s1 * s2 * s3 / (a + b + c))
+    R = a * b * c / np.sqrt((a + b + c) * s1 * s2 * s3)
     return 2 * r / R
 
 
-- 
2.43.0


From e66685651d401586555289ded1c15e46c63da442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 27/43] fix: dihedral angles of flat cells are 0 or pi, not NaN
 (slivers were missed)

---
 SeismicMesh/geometry/cpp/fast_geometry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/cpp/fast_geometry.cpp b/SeismicMesh/geometry/cpp/fast_geometry.cpp
index cd46759..2b56c9f 100644
--- a/SeismicMesh/geometry/cpp/fast_geometry.cpp
+++ b/SeismicMesh/geometry/cpp/fast_geometry.cpp
@@ -411,7 +411,9 @@ std::vector<double> c_calc_dihedral_angles(std::vector<double> &points,
 
       double cphi =
           (v2Dotv3 - v1Dotv2 * v1Dotv3) / ((norm_v1Crossv2 * norm_v1Crossv3));
-      dh_angles[c * 6 + i] = std::acos(cphi); // in radians
+      // nb: round-off must not make a flat cell's angles NaN
+      dh_angles[c * 6 + i] =
+          std::acos(std::max(-1.0, std::min(1.0, cphi))); // in radians
     }
   }
   return dh_angles;
-- 
2.43.0


From 5e1e3f099d8af98da6fc41cde44a0cc252f67a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 28/43] fix: sizing rules that are not requested don't cap the
 mesh size at 99999

---
 SeismicMesh/sizing/mesh_size_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index a6b5749..cff6627 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -415,7 +415,7 @@ def _wavelength_sizing(vp, wl=5, freq=2.0):
     of an acoustic/elastic wave.
     """
     if wl == 0.0:
-        return 99999
+        return np.inf
     if wl < 0:
         raise ValueError("Parameter `wl` must be set > 0")
     if freq < 0.0:
@@ -430,7 +430,7 @@ def _wavelength_sizing(vp, wl=5, freq=2.0):
 def _gradient_sizing(vp, grad, stencil_size):
     """Refine the mesh near sharp gradients in seismic velocity."""
     if grad == 0.0:
-        return 99999
+        return np.inf
     print("Refining mesh sizes near sharp velocity gradients...")
     if grad < 0:
         raise ValueError("Parameter grad must be > 0")
-- 
2.43.0


From 8c3344bf6e9db0f4cdd099eeda7e1731aa2395e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 29/43] fix: refuse a negative `wl` or `grad` also when the
 other one is not used

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index cff6627..1e8adf7 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -205,7 +205,7 @@ def get_sizing_function_from_segy(
                 raise ValueError(
                     "Option %s with parameter %s not recognized " % (key, kwargs[key])
                 )
-        if np.any([sz_opts["wl"] > 0, sz_opts["grad"] > 0]):
+        if sz_opts["wl"] != 0 or sz_opts["grad"] != 0:
             cell_size = np.minimum(
                 _wavelength_sizing(vp, sz_opts["wl"], sz_opts["freq"]),
                 _gradient_sizing(vp, sz_opts["grad"], sz_opts["stencil_size"]),
-- 
2.43.0


From 305f37b0e6344773b153b34285f8132c8c9e349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 30/43] fix: gradient sizes of a uniform velocity model are not
 NaN

---
 SeismicMesh/sizing/mesh_size_function.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 1e8adf7..730efdf 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -444,7 +444,11 @@ def _gradient_sizing(vp, grad, stencil_size):
     win_var = win_sqr_mean - win_mean**2
 
     # normalize variance to [0,1]
-    win_var = np.divide(win_var, np.amax(win_var))
+    max_var = np.amax(win_var)
+    if max_var > 1e-12 * np.amax(win_sqr_mean):
+        win_var = np.divide(win_var, max_var)
+    else:  # uniform up to round-off
+        win_var = np.zeros_like(win_var)
     # win_var /= np.amax(win_var)
     win_var -= np.amin(win_var)
     return grad / (win_var + 0.10)
-- 
2.43.0


From 034a7d58889e52fdcff1f73b5f32d30a8184d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 31/43] fix: don't round the moments of integer velocities in
 the gradient sizing

---
 SeismicMesh/sizing/mesh_size_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 730efdf..8545935 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -439,6 +439,8 @@ def _gradient_sizing(vp, grad, stencil_size):
         window = [stencil_size] * vp.ndim
     else:
         window = stencil_size
+    # nb: the filter would round the mean of integer velocities
+    vp = np.asarray(vp, dtype=float)
     win_mean = ndimage.uniform_filter(vp, tuple(window))
     win_sqr_mean = ndimage.uniform_filter(vp**2, tuple(window))
     win_var = win_sqr_mean - win_mean**2
-- 
2.43.0


From 2f10c1c79b07061d426912ac86c6e7ff29784403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 32/43] fix: take the number of grid points from the velocity
 data passed in

---
 SeismicMesh/sizing/mesh_size_function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 8545935..4edd388 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -131,7 +131,10 @@ def get_sizing_function_from_segy(
         nz = sz_opts["nz"]
         nx = sz_opts["nx"]
         ny = sz_opts["ny"]
-        if vp is None:
+        if vp is not None:
+            vp = np.asarray(vp)
+            nz, nx, ny = (*vp.shape, 0)[:3]
+        else:
             vp, nz, nx, ny = read_velocity_model(
                 filename=filename,
                 nz=sz_opts["nz"],
-- 
2.43.0


From 26cecfcb71409e3d4f5eae9bc324e454bf6c2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 33/43] fix: drop the cells that the final projection turned
 inside out

---
 SeismicMesh/generation/mesh_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index d29d945..bb26dac 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -493,7 +493,8 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
-                # projecting and removing may flip cells and orphan vertices
+                # drop the cells that projecting turned inside out
+                t = t[geometry.simp_vol(p, t) > 0]
                 p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
 
-- 
2.43.0


From 953dcc9a381947827af097579797ea85de3b61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 34/43] fix: drop the cells that the final projection collapsed

---
 SeismicMesh/generation/mesh_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index bb26dac..53b5b9a 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -493,8 +493,10 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
-                # drop the cells that projecting turned inside out
+                # drop the cells that projecting turned inside out or collapsed
                 t = t[geometry.simp_vol(p, t) > 0]
+                p, t, _ = geometry.fix_mesh(p, t, dim=dim)
+                t = t[(np.diff(np.sort(t, axis=1), axis=1) > 0).all(1)]
                 p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
 
-- 
2.43.0


From 95cb476e0e5ac51e7c70e14de947cb3dea375f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 35/43] fix: report success when the last iteration left no
 slivers

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 53b5b9a..2b13182 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -222,7 +222,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         ele_nums, ix = _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound)
 
         # Number of iterations reached, stop.
-        if count == (max_iter - 1):
+        if count == (max_iter - 1) and len(ele_nums) > 0:
             print_msg1(
                 "FAILURE: Termination...maximum number of iterations reached. Try increasing max_iter when generating the mesh",
             )
-- 
2.43.0


From baa2fd65069198d3c6e9b4f59499791544f41cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 36/43] fix: make the removal of slivers repeatable

---
 SeismicMesh/generation/mesh_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 2b13182..086fb9e 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -213,6 +213,8 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
 
         # Get the current topology of the triangulation
         p, t = _get_topology(dt)
+        # nb: after moves the order of the cells and of their vertices is arbitrary
+        t = np.roll(np.unique(np.sort(t, axis=1), axis=0), count, axis=1)
 
         pold = p.copy()
 
-- 
2.43.0


From e52ff1d75ca33a94f2c7fb9ad6c3ae869d7f094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:09 +0000
Subject: [PATCH 37/43] fix: take back the final moves that turn inner cells
 inside out

---
 SeismicMesh/generation/mesh_generator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 086fb9e..4d0b943 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -493,7 +493,15 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 p, t, gen_opts, comm, verbose=gen_opts["verbose"], pfix=pfix
             )
             if comm.rank == 0:
+                inner = np.setdiff1d(t, geometry.get_boundary_vertices(t, dim))
+                p0 = p.copy()
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
+                # take back the moves that turned an inner cell inside out
+                t0 = t[np.isin(t, inner).any(1)]
+                undo = t0[geometry.simp_vol(p, t0) <= 0]
+                while (p[undo] != p0[undo]).any():
+                    p[undo] = p0[undo]
+                    undo = t0[geometry.simp_vol(p, t0) <= 0]
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
                 # drop the cells that projecting turned inside out or collapsed
                 t = t[geometry.simp_vol(p, t) > 0]
-- 
2.43.0


From 8c87f3b6b606dbb9c46fefc1b10fd5718d2e8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:54 +0000
Subject: [PATCH 38/43] fix: keep generated points away from fixed ones

---
 SeismicMesh/generation/mesh_generator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 4d0b943..e37b2b0 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -878,12 +878,11 @@ def _generate_initial_points(h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf)
     if comm.size > 1:
         r0m = comm.allreduce(r0m, op=MPI.MIN)
     np.random.seed(opts["seed"])
-    p = np.vstack(
-        (
-            pfix,
-            p[np.random.rand(p.shape[0]) < r0m**dim / r0**dim],
-        )
-    )
+    p = p[np.random.rand(p.shape[0]) < r0m**dim / r0**dim]
+    # cells between fixed points and points next to them would be too small to keep
+    for fix in pfix:
+        p = p[((p - fix) ** 2).sum(1) > (h0 / 2) ** 2]
+    p = np.vstack((pfix, p))
     _check_all_ranks_have_points(p, comm)
     extents = _form_extents(p, h0, comm, opts)
     return fh, p, extents
-- 
2.43.0


From ec120a717c134ff4a7d45a483b355a5e869b100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:54 +0000
Subject: [PATCH 39/43] fix: don't move fixed points onto the boundaries of
 subdomains

---
 SeismicMesh/generation/mesh_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index e37b2b0..12c11b4 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -520,7 +520,11 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         # Bring outside points back to the boundary
         for idx, level in enumerate(levels):
+            pold = p[ifix].copy()
             p = _project_points_back_newton(p, level, deps, h0, idx)
+            # fixed points aren't moved onto the boundaries of subdomains
+            if idx > 0:
+                p[ifix] = pold
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-- 
2.43.0


From 3001f56b4a1b2ae060a437641b2be9be6ae82b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:36 +0000
Subject: [PATCH 40/43] fix: don't add a corner twice that the user has fixed

---
 SeismicMesh/generation/mesh_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 12c11b4..0556de1 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -428,6 +428,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
     if corners is not None and comm.size == 1:
         # keep corners only near level set
         corners = corners[np.abs(fd(corners)) < 1000 * deps]
+        # corners that the user has fixed as well aren't added twice
+        for fix in pfix:
+            corners = corners[((corners - fix) ** 2).sum(1) > deps**2]
         pfix = np.append(pfix, corners, axis=0)
         nfix = len(pfix)
 
-- 
2.43.0


From d5db247dac379c81b78d5945faee9861aa92557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 41/43] fix: keep the cells at edges of the domain in parallel

---
 SeismicMesh/generation/mesh_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 0556de1..c6f3ace 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -923,8 +923,9 @@ def _form_extents(p, h0, comm, opts):
     if comm.size > 1:
         # min x min y min z max x max y max z
         extent = [*np.amin(p, axis=0), *np.amax(p, axis=0)]
-        extent[_axis] -= 5 * h0
-        extent[_axis + dim] += 5 * h0
+        for i in range(dim):
+            extent[i] -= 5 * h0
+            extent[i + dim] += 5 * h0
         return [comm.bcast(extent, r) for r in range(comm.size)]
     else:
         return []
-- 
2.43.0


From a2c35d44753b0ff76c8a363f0e64e15c5ef97adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:01 +0000
Subject: [PATCH 42/43] fix: a size function of another box doesn't turn the
 domain into a box, only boxes are padded

---
 SeismicMesh/generation/mesh_generator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index c6f3ace..85756bf 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -147,8 +147,8 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
     else:
         bbox = _minmax(bbox0, bbox1)
 
-    # rebuild the Rectangle or Cube if domain padding
-    if bbox0 != bbox1 and bbox1 is not None:
+    # rebuild the Cube if domain padding
+    if bbox0 != bbox1 and bbox1 is not None and _is_box(domain):
         fd = geometry.Cube(bbox).eval
 
     if not isinstance(bbox, tuple):
@@ -397,7 +397,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         corners = None
 
     # rebuild the Rectangle or Cube if domain padding
-    if bbox0 != bbox1 and bbox1 is not None:
+    if bbox0 != bbox1 and bbox1 is not None and _is_box(domain):
         if dim == 2:
             tmp = geometry.Rectangle(bbox)
         elif dim == 3:
@@ -568,6 +568,12 @@ def _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound):
     return ele_nums, ix
 
 
+def _is_box(domain):
+    """Is it a Rectangle or a Cube that hasn't been moved (other domains aren't padded)"""
+    boxes = (geometry.Rectangle, geometry.Cube)
+    return isinstance(domain, boxes) and domain.bbox == tuple(domain.bbox0)
+
+
 def _minmax(bbox0, bbox1):
     d = []
     for i, (a, b) in enumerate(zip(bbox0, bbox1)):
-- 
2.43.0


From 5bdad320d397925435d54ac1791c744f048a0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:01 +0000
Subject: [PATCH 43/43] fix: constrain the corners of the padded domain

---
 SeismicMesh/generation/mesh_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 85756bf..2f7c215 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -404,6 +404,8 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             tmp = geometry.Cube(bbox)
 
         fd = tmp.eval
+        if corners is not None:
+            corners = tmp.corners
 
     bbox = np.array(bbox).reshape(-1, 2)
 
-- 
2.43.0

