From b9ac4abad374dd67ccab25388f4b7f8d902d18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 01/57] fix: reset grid title and border counter when the grid
 is cleared

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..a66b6cc 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -44,11 +44,13 @@ class Grid:
         Clear grid.
         """
 
+        self.Name = ''
         self.Nodes.clear()
         self.Edges.clear()
         self.Faces.clear()
         self.Zones.clear()
         self.RoundedCoordsBag.clear()
+        self.number_of_border_nodes = 0
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From ce4cfe1c0347fa501604c6bd4cffd14310b17b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 02/57] fix: keep '=' in titles and zone names while loading a
 grid

---
 crysgsu/gsu/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index a66b6cc..e364faf 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -495,7 +495,7 @@ class Grid:
                     # Comment.
                     pass
                 elif 'TITLE=' in line:
-                    self.Name = line.split('=')[1][1:-2]
+                    self.Name = line.split('=', 1)[1][1:-2]
                 elif 'VARIABLES=' in line:
                     variables_str = line.split('=')[-1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
@@ -505,7 +505,7 @@ class Grid:
                 elif 'ZONE T=' in line:
 
                     # Create new zone.
-                    zone_name = line.split('=')[-1][1:-2]
+                    zone_name = line.split('=', 1)[1][1:-2]
                     zone = gsu.Zone(zone_name)
                     self.Zones.append(zone)
 
-- 
2.43.0


From d82331832c7548a6bccbd9be3d05b8b90dafc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 03/57] fix: qualify zones adjacency matrix in grid report

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index e364faf..f537020 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -152,7 +152,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From d9956bd3d231f81f858eeb3e45cf3ddf87535adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 04/57] fix: replace removed numpy alias in zone arrays

---
 crysgsu/gsu/zone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/zone.py b/crysgsu/gsu/zone.py
index 907bbdc..f20aa1b 100644
--- a/crysgsu/gsu/zone.py
+++ b/crysgsu/gsu/zone.py
@@ -205,10 +205,10 @@ class Zone:
         """
         gloids, ts, hws = list(), list(), list()
         his, htcs, betas = list(), list(), list()
-        mimp2s = np.zeros((len(self.Faces)), dtype=np.float)
-        vd2s =  np.zeros((len(self.Faces)), dtype=np.float)
+        mimp2s = np.zeros((len(self.Faces)), dtype=np.double)
+        vd2s =  np.zeros((len(self.Faces)), dtype=np.double)
         tauxs, tauys, tauzs = list(), list(), list()
-        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.float)
+        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.double)
 
         for f in self.Faces:
             gloids.append(f.GloId)
@@ -234,7 +234,7 @@ class Zone:
             n1, n2, n3 = f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId
             assert not n1 == n2 == n3
             connectivity_list.append([n1, n2, n3])
-        return np.array(connectivity_list, dtype=np.float)
+        return np.array(connectivity_list, dtype=np.double)
 
     def get_variable(self, name):
         """Return numpy array of variable values.
-- 
2.43.0


From b9f238185afbbe8a4786de699cfcd38643bdc012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 05/57] fix: keep '=' in variable names while loading a grid

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index f537020..090c99c 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -497,7 +497,7 @@ class Grid:
                 elif 'TITLE=' in line:
                     self.Name = line.split('=', 1)[1][1:-2]
                 elif 'VARIABLES=' in line:
-                    variables_str = line.split('=')[-1][:-1]
+                    variables_str = line.split('=', 1)[1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
                     face_variables = variables[3:]
                     face_variables_count = len(face_variables)
-- 
2.43.0


From 312a30d4c1defa83fc736b00c387a4f5e92ffdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 06/57] fix: roll back trial splits that leave a child zone
 empty

---
 crysgsu/gsu/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 090c99c..6f10178 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -919,6 +919,9 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            # Roll back.
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
@@ -976,8 +979,10 @@ class Grid:
 
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
+            # Children are not used.
             # Replace to the end.
-            self.Zones.remove(zone)
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From d60474f176f04a07bbf57b5b1c83a31f2417cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 07/57] fix: refuse non-positive node numbers while loading a
 grid

---
 crysgsu/gsu/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 6f10178..cb83d0c 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -559,7 +559,10 @@ class Grid:
                     for i in range(faces_to_read):
                         line = f.readline()
                         face = zone.Faces[i]
-                        nodes = [zone.Nodes[int(ss) - 1] for ss in line.split()]
+                        ids = [int(ss) for ss in line.split()]
+                        if any(i < 1 for i in ids):
+                            raise Exception('Wrong node index ({0}).'.format(line))
+                        nodes = [zone.Nodes[i - 1] for i in ids]
                         if len(nodes) != 3:
                             raise Exception('Wrong count of ' \
                                             'face linked nodes ({0}).'.format(len(nodes)))
-- 
2.43.0


From 1c17a461e7d5d315560d62845c8a9b1e472fa5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 08/57] fix: qualify sqrt in triangle quality

---
 crysgsu/geom/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index ba9fc46..792d5d3 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -529,7 +529,7 @@ class Triangle:
         # Get all points.
         a, b, c = self.a(), self.b(), self.c()
 
-        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / sqrt(self.area())
+        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / math.sqrt(self.area())
 
 
 # ==================================================================================================
-- 
2.43.0


From 4b178a1edf183ec1936c6dbc08bcf62f05a523c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 09/57] fix: make the parallelism test of segment intersection
 scale independent

---
 crysgsu/geom/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 792d5d3..9e8bac7 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -240,7 +240,7 @@ class Triangle:
                     res = []
             return res
 
-        if abs(d) < 1e-10:
+        if abs(d) <= 1e-10 * ba.mod() * ca.mod() * pq.mod():
 
             # one plane
             if self.point_in_one_plane(p) and self.point_in_one_plane(q):
-- 
2.43.0


From aa4ef136a48edf13a969e7fc51f9feef0a06b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 10/57] fix: find an edge by its own end nodes, not by
 coincident ones

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index cb83d0c..e941752 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -360,7 +360,7 @@ class Grid:
         """
 
         for edge in node_a.Edges:
-            if node_b in edge.Nodes:
+            if any(node is node_b for node in edge.Nodes):
                 return edge
 
         return None
-- 
2.43.0


From 68da1303d02a6334bbdcabcf1664138aee04f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 11/57] fix: count fixed zones, not their listed names, in the
 n<k> split strategy

---
 crysgsu/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/split.py b/crysgsu/split.py
index b4d4ed5..a79e8a0 100644
--- a/crysgsu/split.py
+++ b/crysgsu/split.py
@@ -98,7 +98,7 @@ def split(grid_file,
         print('crys-gsu-split : hierarchical, actual-zones-count={0}'.format(actual_zones_count))
     elif split_strategy[0] == 'n':
         # Split with exact n domains defined.
-        fz = len(fixed_zones)
+        fz = len([z for z in g.Zones if z.Name in fixed_zones])
         if domains_count == 0:
             raise Exception('crys-gsu-split : zero zones count to split')
         if fz >= domains_count:
-- 
2.43.0


From 540235127e7d027a27f874b4b6b5c67ddc449aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 12/57] fix: do not take superscript digits in file names for
 numbers

---
 crysgsu/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/utils.py b/crysgsu/utils.py
index 906eb8b..f26216d 100644
--- a/crysgsu/utils.py
+++ b/crysgsu/utils.py
@@ -78,12 +78,12 @@ def dummy_split_filename(s):
 
     s, m, t, e = s[:-23], s[-22:-17], s[-16:-4], s[-3:]
 
-    if m.isdigit():
+    if m.isdecimal():
         md = int(m)
     else:
         md = None
 
-    if t.isdigit():
+    if t.isdecimal():
         td = int(t)
     else:
         td = None
-- 
2.43.0


From d9a71f3d5f9a82ad9856d4d6f23def8c25c964e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 13/57] fix: make the coplanar segment intersection scale
 independent

---
 crysgsu/geom/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 9e8bac7..86a215f 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -187,7 +187,7 @@ class Triangle:
 
             det = np.array([[ba.Coords[i], ca.Coords[i]],
                             [ba.Coords[j], ca.Coords[j]]])
-            return round(np.linalg.det(det), 10)
+            return np.linalg.det(det)
 
         def solve_the_linear_equation(a, b):
             """
@@ -273,7 +273,7 @@ class Triangle:
                         if i != j:
 
                             det = determinant(i, j)
-                            if det == 0:
+                            if abs(det) <= 1e-10 * ba.mod() * ca.mod():
                                 continue
 
                             res = []
-- 
2.43.0


From dc168015117fd97f69751e90701a57c02aaa7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 14/57] fix: classify points in triangles relatively to their
 size

---
 crysgsu/geom/triangle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 86a215f..286ce17 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -349,11 +349,14 @@ class Triangle:
         a, b, c = self.a(), self.b(), self.c()
 
         # А point in a triangle if the sum of the formed areas is equal to the area of the original triangle.
-        ar1 = round(Triangle(a, b, point).area(), 10)
-        ar2 = round(Triangle(a, point, c).area(), 10)
-        ar3 = round(Triangle(point, b, c).area(), 10)
-        if math.isclose(self.area(), ar1 + ar2 + ar3):
-            return bool(ar1) + bool(ar2) + bool(ar3)
+        ar = self.area()
+        ar1 = Triangle(a, b, point).area()
+        ar2 = Triangle(a, point, c).area()
+        ar3 = Triangle(point, b, c).area()
+        if math.isclose(ar, ar1 + ar2 + ar3):
+            # Small areas are zero relatively to the area of the triangle.
+            eps = 1e-10 * ar
+            return (ar1 > eps) + (ar2 > eps) + (ar3 > eps)
         return 0
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From 0890f466d3b46f7234ceb883cec576fe5baa8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 15/57] fix: order vectors consistently within the comparison
 tolerance

---
 crysgsu/geom/vect.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index f226120..08587f2 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -267,14 +267,12 @@ class Vect:
         :return: Result (True or False)
         """
 
-        if abs(self.X - other.X) < 1.0e-10 and abs(self.Y - other.Y) < 1.0e-10 and self.Z < other.Z:
-            return True
-        elif abs(self.X - other.X) < 1.0e-10 and self.Y < other.Y:
-            return True
-        elif self.X < other.X:
-            return True
+        if abs(self.X - other.X) >= 1.0e-10:
+            return self.X < other.X
+        elif abs(self.Y - other.Y) >= 1.0e-10:
+            return self.Y < other.Y
         else:
-            return False
+            return self.Z < other.Z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From edb1c63e1a3b24c21517f7928f1f59681bb1b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 16/57] fix: scalar cubic coefficient of the prismatoid volume

---
 crysgsu/geom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/utils.py b/crysgsu/geom/utils.py
index d82d394..e674ca2 100644
--- a/crysgsu/geom/utils.py
+++ b/crysgsu/geom/utils.py
@@ -115,7 +115,7 @@ def prizmatoid_volume_coefs(v1: Vect,
     # a, b, c coefficients
     a = 0.5 * Vect.cross_product(v21, v31).mod()
     b = 0.25 * Vect.dot_product(Vect.cross_product(v21, u31) + Vect.cross_product(u21, v31), n)
-    c = (1.0 / 6.0) * (Vect.cross_product(u21, u31) * n)
+    c = (1.0 / 6.0) * Vect.dot_product(Vect.cross_product(u21, u31), n)
 
     return a, b, c
 
-- 
2.43.0


From 2004170d4ca6bf7c0d1b9ef050eaf2007c1b7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 17/57] fix: no NaN for angles of parallel vectors

---
 crysgsu/geom/vect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index 08587f2..7110ca1 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -411,7 +411,7 @@ class Vect:
 
         """
 
-        return np.arccos(Vect.angle_cos(v1, v2))
+        return np.arccos(np.clip(Vect.angle_cos(v1, v2), -1.0, 1.0))
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 16f13ded4b7c5f6d209912bfac6d0e286a4a8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 18/57] fix: no division by zero for a droplet moving with the
 air

---
 crysgsu/drops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index e4bd951..c8dcf4a 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -94,7 +94,10 @@ class Space:
         # Reynolds number and C_d.
         vsm = (v - v_air).mod()
         re = vsm * d / air_vis
-        if re <= 350.0:
+        if re == 0.0:
+            # No drag without relative motion.
+            cd = 0.0
+        elif re <= 350.0:
             cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))
         else:
             cd = 0.178 * math.pow(re, 0.217)
-- 
2.43.0


From 7a3b196e2d25d30c1b33dbdbb6791c88c0a2f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 19/57] fix: keep the orientation of cells in atomic grid
 transformations

---
 crysgsu/gsu/grid.py | 89 +++++++++++++++++++--------------------------
 crysgsu/gsu/node.py |  4 +-
 2 files changed, 39 insertions(+), 54 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index e941752..0bb7adb 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -325,6 +325,25 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def link_face_as_part(face, parent, *replacements):
+        """
+        Link face with nodes of parent face (some of them are replaced) keeping their order.
+
+        :param face:         face
+        :param parent:       parent face
+        :param replacements: pairs of nodes (old node, new node)
+        """
+
+        for node in parent.Nodes:
+            for old_node, new_node in replacements:
+                if node is old_node:
+                    node = new_node
+                    break
+            Grid.link_node_face(node, face)
+
+    # ----------------------------------------------------------------------------------------------
+
     @staticmethod
     def link_edge_face(edge, face):
         """
@@ -1324,11 +1343,11 @@ class Grid:
         Grid.link_edge_face(e6, f3)
 
         Grid.link_node_face(n1, f1)
+        Grid.link_node_face(n3, f3)
         Grid.link_node_face(n1, f3)
         Grid.link_node_face(n2, f1)
         Grid.link_node_face(n2, f2)
         Grid.link_node_face(n3, f2)
-        Grid.link_node_face(n3, f3)
         Grid.link_node_face(n4, f1)
         Grid.link_node_face(n4, f2)
         Grid.link_node_face(n4, f3)
@@ -1401,12 +1420,8 @@ class Grid:
             Grid.link_node_edge(n4, e5)
 
             # links
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n2, f2)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f2)
+            Grid.link_face_as_part(f1, face, (n2, n4))
+            Grid.link_face_as_part(f2, face, (n1, n4))
 
             Grid.link_edge_face(e1, f1)
             Grid.link_edge_face(e2, f1)
@@ -1530,18 +1545,10 @@ class Grid:
             Grid.link_node_edge(n4, e45)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n5, f1_1)
-            Grid.link_node_face(n5, f1_2)
-            Grid.link_node_face(n5, f2_1)
-            Grid.link_node_face(n5, f2_2)
-            Grid.link_node_face(n1, f1_2)
-            Grid.link_node_face(n1, f2_1)
-            Grid.link_node_face(n2, f1_1)
-            Grid.link_node_face(n2, f2_2)
-            Grid.link_node_face(n3, f1_1)
-            Grid.link_node_face(n3, f1_2)
-            Grid.link_node_face(n4, f2_1)
-            Grid.link_node_face(n4, f2_2)
+            Grid.link_face_as_part(f1_1, f1, (n1, n5))
+            Grid.link_face_as_part(f1_2, f1, (n2, n5))
+            Grid.link_face_as_part(f2_1, f2, (n2, n5))
+            Grid.link_face_as_part(f2_2, f2, (n1, n5))
 
             Grid.link_edge_face(e15, f1_2)
             Grid.link_edge_face(e15, f2_1)
@@ -1714,12 +1721,8 @@ class Grid:
             Grid.link_node_edge(n2, e24)
             Grid.link_node_edge(n3, e34)
 
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f2)
+            Grid.link_face_as_part(f1, face, (n2, n4))
+            Grid.link_face_as_part(f2, face, (n1, n4))
 
             Grid.link_edge_face(e34, f1)
             Grid.link_edge_face(e34, f2)
@@ -1831,15 +1834,9 @@ class Grid:
             Grid.link_node_edge(n5, e35)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
+            Grid.link_face_as_part(f1, face, (n2, n4))
+            Grid.link_face_as_part(f2, face, (n1, n4), (n2, n5))
+            Grid.link_face_as_part(f3, face, (n1, n5))
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
@@ -1948,24 +1945,12 @@ class Grid:
             Grid.link_node_edge(n6, e46)
             Grid.link_node_edge(n6, e56)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n1, f4)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n2, f6)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n4, f4)
-            Grid.link_node_face(n4, f5)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
-            Grid.link_node_face(n5, f5)
-            Grid.link_node_face(n5, f6)
-            Grid.link_node_face(n6, f4)
-            Grid.link_node_face(n6, f5)
-            Grid.link_node_face(n6, f6)
+            Grid.link_face_as_part(f1, face1, (n2, n4))
+            Grid.link_face_as_part(f2, face1, (n1, n4), (n2, n5))
+            Grid.link_face_as_part(f3, face1, (n1, n5))
+            Grid.link_face_as_part(f4, face2, (n2, n4))
+            Grid.link_face_as_part(f5, face2, (n1, n4), (n2, n5))
+            Grid.link_face_as_part(f6, face2, (n1, n5))
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
diff --git a/crysgsu/gsu/node.py b/crysgsu/gsu/node.py
index 5daa3cf..8917da7 100644
--- a/crysgsu/gsu/node.py
+++ b/crysgsu/gsu/node.py
@@ -85,7 +85,7 @@ class Node:
             ed.Nodes.remove(self)
             ed.Nodes += [n]
         for face in self.Faces:
-            face.Nodes.remove(self)
-            face.Nodes += [n]
+            # Keep the order of nodes (orientation of the face).
+            face.Nodes = [n if node is self else node for node in face.Nodes]
 
 # ==================================================================================================
-- 
2.43.0


From 2c86c3870318f619c3e836c49c629818054d01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 20/57] fix: keep zones of both cells while cutting an edge
 between zones

---
 crysgsu/gsu/grid.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 0bb7adb..29546f4 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1489,6 +1489,7 @@ class Grid:
             gloid1 = f1.GloId
             zone = f1.Zone
             data2 = f2.Data.copy()
+            zone2 = f2.Zone
             gloid2 = f2.GloId
 
             self.del_face(f1)
@@ -1565,12 +1566,16 @@ class Grid:
 
             zone.add_face(f1_1)
             zone.add_face(f1_2)
-            zone.add_face(f2_1)
-            zone.add_face(f2_2)
+            zone2.add_face(f2_1)
+            zone2.add_face(f2_2)
             zone.add_edge(e15)
             zone.add_edge(e25)
             zone.add_edge(e35)
-            zone.add_edge(e45)
+            zone2.add_edge(e45)
+            if zone2 is not zone:
+                zone2.add_node(n5)
+                zone2.add_edge(e15)
+                zone2.add_edge(e25)
 
             return True
         else:
@@ -1868,6 +1873,7 @@ class Grid:
             gloid1 = face1.GloId
             zone = face1.Zone
             data2 = face2.Data.copy()
+            zone2 = face2.Zone
             gloid2 = face2.GloId
 
             self.del_face(face1)
@@ -1974,16 +1980,22 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_face(f3)
-            zone.add_face(f4)
-            zone.add_face(f5)
-            zone.add_face(f6)
+            zone2.add_face(f4)
+            zone2.add_face(f5)
+            zone2.add_face(f6)
             zone.add_edge(e14)
             zone.add_edge(e25)
             zone.add_edge(e45)
             zone.add_edge(e34)
             zone.add_edge(e35)
-            zone.add_edge(e46)
-            zone.add_edge(e56)
+            zone2.add_edge(e46)
+            zone2.add_edge(e56)
+            if zone2 is not zone:
+                zone2.add_node(n4)
+                zone2.add_node(n5)
+                zone2.add_edge(e14)
+                zone2.add_edge(e25)
+                zone2.add_edge(e45)
 
             return True
 
-- 
2.43.0


From c9d7e294e7474e808af6cf4632eeac845bddd453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 21/57] fix: keep data and zone of both cells while flipping an
 edge

---
 crysgsu/gsu/grid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 29546f4..581c367 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1396,11 +1396,13 @@ class Grid:
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
             gloid2 = other_face.GloId
+            data2 = other_face.Data.copy()
+            zone2 = other_face.Zone
             self.del_face(other_face)
 
             # get new faces
             f1 = gsu.Face(list(data.keys()), list(data.values()))
-            f2 = gsu.Face(list(data.keys()), list(data.values()))
+            f2 = gsu.Face(list(data2.keys()), list(data2.values()))
 
             # get nodes
             n1 = max_edge.Nodes[0]
@@ -1431,12 +1433,14 @@ class Grid:
             Grid.link_edge_face(e5, f2)
 
             zone.add_face(f1)
-            zone.add_face(f2)
-            zone.add_edge(e5)
+            zone2.add_face(f2)
 
             self.add_face(f1, gloid1)
             self.add_face(f2, gloid2)
 
+            # New edge and corners of new faces can change zones.
+            self.link_nodes_and_edges_to_zones()
+
             return True
         else:
             return False
-- 
2.43.0


From 7d7fc5c4e5dc7df64dcdaf9de74997ff07952302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 22/57] fix: keep identifiers and zones consistent after
 collapsing an edge

---
 crysgsu/gsu/grid.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 581c367..f06766c 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1271,7 +1271,8 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
+        for z in self.Zones:
+            z.Nodes = [n for n in z.Nodes if n is not node]
         self.Nodes.remove(node)
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
@@ -1587,6 +1588,23 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def fill_free_glo_ids(items, deleted_items):
+        """
+        Pass global identifiers of deleted objects to objects with identifiers out of range.
+
+        :param items:         rest objects (nodes, edges or faces)
+        :param deleted_items: deleted objects
+        """
+
+        count = len(items)
+        free_ids = [i.GloId for i in deleted_items if i.GloId < count]
+        for item in items:
+            if item.GloId >= count:
+                item.GloId = free_ids.pop()
+
+    # ----------------------------------------------------------------------------------------------
+
     def collapse_edge(self, edge):
         """
 
@@ -1642,12 +1660,13 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            # Give free global identifiers to objects with too big ones.
+            Grid.fill_free_glo_ids(self.Faces, [f1, f2])
+            Grid.fill_free_glo_ids(self.Edges, [edge, e1, e2])
+            Grid.fill_free_glo_ids(self.Nodes, [n2])
+
+            # Edges and nodes can get into other zones.
+            self.link_nodes_and_edges_to_zones()
 
             return True
         else:
-- 
2.43.0


From b97b24546781e61775ba13f036dfc0c096eb2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 23/57] fix: sort points while cutting an edge with two nodes

---
 crysgsu/gsu/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index f06766c..6167294 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1798,6 +1798,10 @@ class Grid:
                n4       n5
         """
 
+        # The first point has to be the nearest to the first node of the edge.
+        if edge.Nodes[0].P.dist_to(p1) > edge.Nodes[0].P.dist_to(p2):
+            p1, p2 = p2, p1
+
         if len(edge.Faces) == 1:
 
             # det all data and del from grid
-- 
2.43.0


From a99608efe3f38db856fc575dd32660462bc24380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 24/57] fix: make null-space smoothing work with current grid
 classes

---
 crysgsu/smoothing.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2adb569..f9c82ce 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -143,10 +143,10 @@ class NullSpaceSmoothing(Smoothing):
         -------
             numpy array (N_FACES, 3)
         """
-        N = node.Faces[0].get_triangle().normal_orth().coords_as_numpy()
+        N = node.Faces[0].get_triangle().normal_orth().coords_as_np()
         N = N.reshape((1, 3))
         for f in node.Faces[1:]:
-            normal = f.get_triangle().normal_orth().coords_as_numpy()
+            normal = f.get_triangle().normal_orth().coords_as_np().reshape((1, 3))
             assert N.shape[1] == normal.shape[1], print(N.shape, normal.shape)
             N = vstack((N, normal))
 
@@ -166,7 +166,7 @@ class NullSpaceSmoothing(Smoothing):
         -------
             Vector obj
         """
-        dv = Vect()
+        dv = geom.Vect()
         p = node.P
         weights = 0
 
@@ -179,7 +179,7 @@ class NullSpaceSmoothing(Smoothing):
             c = c - p
             weight = 1.0
 
-            assert isinstance(c, Vect)
+            assert isinstance(c, geom.Vect)
 
             c = c * weight
             dv = dv + c
@@ -195,14 +195,14 @@ class NullSpaceSmoothing(Smoothing):
         for i in range(0, self.num_iterations):
             shifts = []
             for n in self.grid.Nodes:
-                m = len(n.faces)
-                w = [f.get_triangle().area() for f in n.faces]
+                m = len(n.Faces)
+                w = [f.get_triangle().area() for f in n.Faces]
                 N = self.create_matrix_of_normals(n)
                 dv = self.get_laplacian(n)
 
                 assert N.shape == (m, 3)
                 assert len(w) == m
-                assert isinstance(dv, Vect)
+                assert isinstance(dv, geom.Vect)
 
                 W = diag(w)
                 NTW = dot(N.T, W)
@@ -231,9 +231,9 @@ class NullSpaceSmoothing(Smoothing):
                     ttT = dot(ns, ns.T)
                     t = self.st * dot(ttT, dv)
                     assert t.shape == (3, 1), 'Wrong shift shape'
-                    shift = Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
+                    shift = geom.Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
                 else:
-                    shift = Vect(0, 0, 0)
+                    shift = geom.Vect(0, 0, 0)
                 shifts.append(shift)
 
             Smoothing.apply_shifts(self, shifts)
-- 
2.43.0


From 3f384fbe0f7c53c62bec53e0981c79d9c8b64484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 25/57] fix: make pseudo_2d_oz mode work and keep z of all
 nodes of columns

---
 crysgsu/remeshing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 0261e5d..98b1b3f 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -495,7 +495,7 @@ class TongRemesher:
 
         # Add nodes to appropriate classes with the same x, y coords.
         for node in self.grid.Nodes:
-            c = (int(node.P.x * big_value), int(node.P.y * big_value))
+            c = (int(node.P.X * big_value), int(node.P.Y * big_value))
             v = d.get(c)
             if v is not None:
                 v.append(node)
@@ -512,7 +512,7 @@ class TongRemesher:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (diff columns lens)')
             if len(v) == 1:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (column len = 1)')
-            v.sort(key=lambda n: n.P.z)
+            v.sort(key=lambda n: n.P.Z)
 
         # Set information to grid.
         self.grid.pseudo_2d_oz_columns = vs
@@ -525,7 +525,7 @@ class TongRemesher:
         """
 
         for n in self.grid.Nodes:
-            n.frozen_z = n.P.z
+            n.frozen_z = n.P.Z
 
     # ----------------------------------------------------------------------------------------------
 
@@ -617,9 +617,9 @@ class TongRemesher:
 
         # Correct each column.
         for col in cols:
-            for i, n in enumerate(col):
-                if i != mid_index:
-                    n.P.X, n.P.Y, n.P.Z = col[mid_index].x, col[mid_index].y, n.frozen_z
+            x, y = col[mid_index].P.X, col[mid_index].P.Y
+            for n in col:
+                n.P.X, n.P.Y, n.P.Z = x, y, n.frozen_z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 2cb46eb62d1cc322bfbd0bb390ace6722fda2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 26/57] fix: do not grow extra ice without redistribution of
 rest volume

---
 crysgsu/remeshing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 98b1b3f..4219d26 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -545,6 +545,10 @@ class TongRemesher:
         for face in self.grid.Faces:
             face.ice_chunk = face.rest_ice / rest_iterations
 
+            # Without redistribution of rest volume we suppose the chunk to be accreted exactly.
+            if not self.rest_volume_redistr:
+                face.rest_ice -= face.ice_chunk
+
     # ----------------------------------------------------------------------------------------------
 
     def null_space_smoothing(self):
-- 
2.43.0


From 95230b8c9657bb11092941de53caa88f6cc37f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 27/57] fix: make null-space smoothing checks independent of
 the grid scale

---
 crysgsu/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index f9c82ce..099b74d 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -197,6 +197,8 @@ class NullSpaceSmoothing(Smoothing):
             for n in self.grid.Nodes:
                 m = len(n.Faces)
                 w = [f.get_triangle().area() for f in n.Faces]
+                # Relative weights do not change eigenvectors, but make checks independent of scale.
+                w = [wi / sum(w) for wi in w]
                 N = self.create_matrix_of_normals(n)
                 dv = self.get_laplacian(n)
 
-- 
2.43.0


From 7d4f9d51f67c875e2fe52a5a6983973ae9470d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 28/57] fix: use orthonormal null space in null-space smoothing

---
 crysgsu/smoothing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 099b74d..d752bca 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -1,4 +1,4 @@
-from scipy.linalg import eig, det
+from scipy.linalg import eigh, det
 from numpy import argmax, array, vstack, diag, dot, abs, cumprod, sum, full, arccos, exp, real
 from copy import deepcopy
 from collections import deque
@@ -214,7 +214,8 @@ class NullSpaceSmoothing(Smoothing):
                 assert NTW.shape == (3, m)
                 assert A.shape == (3, 3)
 
-                eigenValues, eigenVectors = eig(A)
+                # Matrix is symmetric, and we need orthonormal eigenvectors.
+                eigenValues, eigenVectors = eigh(A)
                 idx = eigenValues.argsort()[::-1]
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
-- 
2.43.0


From 669a6ced1b41a1a922d99b3b0028e8455fefc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 29/57] fix: keep cell data with their cells while converting
 from Lazurit

---
 crysgsu/convert/lazurit_to_crystal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crysgsu/convert/lazurit_to_crystal.py b/crysgsu/convert/lazurit_to_crystal.py
index 614dfd2..19d9107 100644
--- a/crysgsu/convert/lazurit_to_crystal.py
+++ b/crysgsu/convert/lazurit_to_crystal.py
@@ -192,8 +192,9 @@ if __name__ == '__main__':
             of.write(' '.join(double_and_neg_list(selems[7 * hec: 8 * hec])) + '\n')
 
             # Печать линков.
-            for i in range(zone_i - 1):
-                for j in range(zone_j - 1):
+            # Порядок ячеек должен совпадать с порядком данных (индекс i меняется быстрее).
+            for j in range(zone_j - 1):
+                for i in range(zone_i - 1):
                     ni00 = (i)     + (j)     * zone_i
                     ni01 = (i)     + (j + 1) * zone_i
                     ni10 = (i + 1) + (j)     * zone_i
-- 
2.43.0


From 39015e205c23cd0d44c4042475655bfa3b10ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 30/57] fix: take ANSYS variables by name whatever their
 position

---
 crysgsu/convert/ansys_to_crystal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 8a2f894..cf32c8f 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -303,9 +303,14 @@ def filter_variables(filename, ofilename, variables_names):
                     if is_str_title(l):
                         of.write(l)
                     elif is_str_variables(l):
-                        fnames = l.split('=')[1].replace('"', '').split(',')
+                        fnames = [fn.strip() for fn in l.split('=', 1)[1].replace('"', '').split(',')]
                         (fnames, mask) = variables_names_and_mask(fnames, variables_names)
                         filtered_names = filter_with_mask(fnames, mask)
+
+                        # Порядок переменных - как в списке искомых имен, а не как в файле.
+                        order = sorted(range(len(filtered_names)),
+                                       key=lambda i: variables_names.index(filtered_names[i]))
+                        filtered_names = [filtered_names[i] for i in order]
                         joined_names = ', '.join(['"' + name + '"' for name in filtered_names])
                         of.write('VARIABLES=' + joined_names + '\n')
                     elif is_str_zone(l):
@@ -315,6 +320,7 @@ def filter_variables(filename, ofilename, variables_names):
                     if nodes_to_read > 0:
                         floats = l.split()
                         filtered_floats = filter_with_mask(floats, mask)
+                        filtered_floats = [filtered_floats[i] for i in order]
                         joined_floats = ' '.join(filtered_floats)
                         of.write(joined_floats + '\n')
                         nodes_to_read -= 1
-- 
2.43.0


From 2de4c06644c47655f8a38e565cb92398f2755608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 31/57] fix: complete sending before a superbuffer is reused

---
 crysgsu/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bdefc1d..85a8c2e 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -116,7 +116,8 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
     for i in range(len(mpi_borders)):
         dest = list(mpi_borders.keys())[i]
         count = len(mpi_borders[dest])
-        comm.Isend(send_sb[i][:count], dest=dest)
+        # Send buffer is reused by the next exchange, so its sending must be completed too.
+        requests.append(comm.Isend(send_sb[i][:count], dest=dest))
 
     for i in range(len(mpi_borders)):
         source = list(mpi_borders.keys())[i]
-- 
2.43.0


From d2b57428fd1617bee2d38abe1544042e0cd9407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 32/57] fix: deliver gathered ice heights to zones of different
 sizes

---
 crysgsu/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 85a8c2e..cbe32c1 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -169,8 +169,10 @@ def remesh(rank, his):
         print("Gathered array: {}".format(recvbuf.size))
 
     if rank == 0:
+        # Zones may be of different sizes.
+        offsets = np.cumsum(sendcounts) - sendcounts
         for i, zone in enumerate(g.Zones):
-            for f, new_h in zip(zone.Faces, recvbuf[i * sendcounts[i] : (i + 1) * sendcounts[i]]):
+            for f, new_h in zip(zone.Faces, recvbuf[offsets[i] : offsets[i] + sendcounts[i]]):
                 f.Data['Hi'] = new_h
 
         TongRemesher(mesh_filename=FILENAME, json_file=JSON, outdir=OUTDIR)(g)
-- 
2.43.0


From e5dfd087b772fa07b64007774c5f198cab0c624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 33/57] fix: let a process without neighbours take part in the
 exchange

---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index cbe32c1..7fe8c51 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -205,7 +205,7 @@ if __name__ == '__main__':
 
     if size > 1:
         mpi_borders = get_mpi_borders(rank, zam, z, g)
-        max_length = max(list(map(len, mpi_borders.values())))
+        max_length = max(map(len, mpi_borders.values()), default=0)
 
         # todo numpy не позволяет делать массив с массивами разной длины, поэтому буфферы строятся по максимальной границе.
         send_superbuffer = np.empty((len(mpi_borders), max_length))
-- 
2.43.0


From 9b75b9af5da29798d4edca30140aa0603eed82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 34/57] fix: keep the native kernel inside arrays of different
 lengths

---
 crysgsu/cpp/src/swim.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crysgsu/cpp/src/swim.cpp b/crysgsu/cpp/src/swim.cpp
index 40de135..7ae7f58 100644
--- a/crysgsu/cpp/src/swim.cpp
+++ b/crysgsu/cpp/src/swim.cpp
@@ -10,14 +10,19 @@ void hi(int n1, double *a1,
         int n2, double *a2,
         int n3, double *a3)
 {
-    (void) n2;
-    (void) n3;
-
+    // Arrays may be of different lengths.
     for (int i = 0; i < n1; i++)
     {
         a1[i] += 1;
+    }
+
+    for (int i = 0; i < n2; i++)
+    {
         a2[i] += 2;
+    }
+
+    for (int i = 0; i < n3; i++)
+    {
         a3[i] += 3;
     }
-    
 }
-- 
2.43.0


From cf7a5a298fbd3cc660dc6eb615212b7b428b7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 35/57] fix: import existing modules in the refine tool

---
 crysgsu/refine.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index a716b13..b075fbf 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -6,13 +6,8 @@ import os
 import time
 import functools
 import math
-from gsu.gsu import Grid
-from gsu.node import Node
-from gsu.edge import Edge
-from gsu.face import Face
-from geom.vect import Vect
-from geom.triangle import Triangle
-from geom.triangles_cloud import TrianglesCloud
+from gsu import Grid, Node
+from geom import Triangle, TrianglesCloud
 
 
 def refine_grid(grid_file, out_grid_file):
-- 
2.43.0


From 8ee8523f718ff17de666aa00027098471cf636db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 36/57] fix: collect intersection points of each triangle
 separately while refining

---
 crysgsu/refine.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index b075fbf..a3edeaa 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -5,7 +5,6 @@ refine grid from file
 import os
 import time
 import functools
-import math
 from gsu import Grid, Node
 from geom import Triangle, TrianglesCloud
 
@@ -234,27 +233,15 @@ def refine_grid(grid_file, out_grid_file):
     triangles_cloud = TrianglesCloud(triangles_list)
     res_intersect = triangles_cloud.intersection_with_triangles_cloud(triangles_cloud)
 
-    # необходимо отсортировать по треугольникам и объединить точки пересечений по одному треугольнику в один список
-    # сортировка списка треугольников по id
-    res_intersect.sort(key=lambda list_of_tri_and_points: id(list_of_tri_and_points[0]))
-    # первый элемент просто записываем в новый список
-    res_intersect_new_list = [res_intersect[0]]
-    # остальные элементы сравниваем с предыдущими
-    # если треугольники одинаковвые, то к предыдущему дописывем список точек
-    # если треугольники разные - дописываем в новый список треугольник с точками
-    for i in range(1, len(res_intersect)):
-        if id(res_intersect[i][0]) != id(res_intersect[i-1][0]):
-            res_intersect_new_list.append(res_intersect[i])
-        else:
-            res_intersect_new_list[-1][1] += res_intersect[i][1]
-
+    # необходимо объединить точки пересечений по одному треугольнику в один список,
     # одинаковые точки нужно отсеять
-    for j in res_intersect_new_list:
-        j[1].sort()
-        j[1] = [j[1][0]] + [j[1][i] for i in range(1, len(j[1])) if
-                           not (math.isclose(j[1][i].X, j[1][i - 1].X) and
-                                math.isclose(j[1][i].Y, j[1][i - 1].Y) and
-                                math.isclose(j[1][i].Z, j[1][i - 1].Z))]
+    points_of_triangles = {}
+    for tri, points in res_intersect:
+        tri_points = points_of_triangles.setdefault(id(tri), [tri, []])[1]
+        for point in points:
+            if point not in tri_points:
+                tri_points.append(point)
+    res_intersect_new_list = list(points_of_triangles.values())
 
     # Поочереди перестраиваем все треугольники (если у них есть точки для перестроения)
     refine(g, res_intersect_new_list)
-- 
2.43.0


From 5cdeb09db2f7a872775a40a6dbc735cc872e451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 37/57] fix: skip cells already rebuilt with their neighbours
 while refining

---
 crysgsu/refine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index a3edeaa..c6f5a64 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -118,6 +118,10 @@ def refine_grid(grid_file, out_grid_file):
             face = tri.BackRef
             assert (face)
 
+            # Треугольник мог быть уже перестроен вместе с соседом по ребру.
+            if face not in g.Faces:
+                continue
+
             # analyze the intersection points for the triangle
             for point in intersection_points:
                 position_in_the_triangle = tri.point_in_triangle(point)
-- 
2.43.0


From 23ba4fa49170e05dbf33108447f377bf3b0527f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 38/57] fix: find the edge of a point by distance, not by exact
 zero area, while refining

---
 crysgsu/refine.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crysgsu/refine.py b/crysgsu/refine.py
index c6f5a64..1b735e4 100644
--- a/crysgsu/refine.py
+++ b/crysgsu/refine.py
@@ -42,12 +42,9 @@ def refine_grid(grid_file, out_grid_file):
         # Get all points.
         a, b, c = tri.a(), tri.b(), tri.c()
 
-        if not Triangle(a, b, point).area():
-            return [[a, b], c]
-        elif not Triangle(point, b, c).area():
-            return [[b, c], a]
-        else:
-            return [[c, a], b]
+        # The point belongs to the nearest edge.
+        edges = [[[a, b], c], [[b, c], a], [[c, a], b]]
+        return min(edges, key=lambda e: Triangle(e[0][0], e[0][1], point).area() / e[0][0].dist_to(e[0][1]))
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From b00ae62bd19f8b181332daaee96c365e60fcee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 39/57] fix: put an existing node into the zone of the cells
 cut by it

---
 crysgsu/gsu/grid.py | 69 ++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 6167294..8b0475b 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1278,6 +1278,20 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def add_zone_node(zone, node):
+        """
+        Add node to zone if it is not in the zone yet.
+
+        :param zone: zone
+        :param node: node
+        """
+
+        if all(n is not node for n in zone.Nodes):
+            zone.add_node(node)
+
+    # ----------------------------------------------------------------------------------------------
+
     def divide_face(self, face, p):
         """
 
@@ -1311,11 +1325,8 @@ class Grid:
         n2 = nodes[1]
         n3 = nodes[2]
         n4 = gsu.Node(p)
-        node = self.add_node(n4, True)
-        if id(node) == id(n4):
-            zone.add_node(n4)
-        else:
-            n4 = node
+        n4 = self.add_node(n4, True)
+        Grid.add_zone_node(zone, n4)
 
         # get edges
         e1 = Grid.find_edge(n1, n2)
@@ -1519,11 +1530,8 @@ class Grid:
             n3 = [i for i in f1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = [i for i in f2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n5 = gsu.Node(p)
-            node = self.add_node(n5, True)
-            if id(node) == id(n5):
-                zone.add_node(n5)
-            else:
-                n5 = node
+            n5 = self.add_node(n5, True)
+            Grid.add_zone_node(zone, n5)
 
             # Edges
             f1.Edges.remove(edge)
@@ -1578,7 +1586,7 @@ class Grid:
             zone.add_edge(e35)
             zone2.add_edge(e45)
             if zone2 is not zone:
-                zone2.add_node(n5)
+                Grid.add_zone_node(zone2, n5)
                 zone2.add_edge(e15)
                 zone2.add_edge(e25)
 
@@ -1724,11 +1732,8 @@ class Grid:
             n2 = edge.Nodes[1]
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p)
-            node = self.add_node(n4, True)
-            if id(node) == id(n4):
-                zone.add_node(n4)
-            else:
-                n4 = node
+            n4 = self.add_node(n4, True)
+            Grid.add_zone_node(zone, n4)
 
             # Edges
             face.Edges.remove(edge)
@@ -1827,17 +1832,11 @@ class Grid:
             n2 = edge.Nodes[1]
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p1)
-            node = self.add_node(n4, True)
-            if id(node) == id(n4):
-                zone.add_node(n4)
-            else:
-                n4 = node
+            n4 = self.add_node(n4, True)
+            Grid.add_zone_node(zone, n4)
             n5 = gsu.Node(p2)
-            node = self.add_node(n5, True)
-            if id(node) == id(n5):
-                zone.add_node(n5)
-            else:
-                n5 = node
+            n5 = self.add_node(n5, True)
+            Grid.add_zone_node(zone, n5)
 
             # Edges
             face.Edges.remove(edge)
@@ -1928,17 +1927,11 @@ class Grid:
             n3 = [i for i in face1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n6 = [i for i in face2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p1)
-            node = self.add_node(n4, True)
-            if id(node) == id(n4):
-                zone.add_node(n4)
-            else:
-                n4 = node
+            n4 = self.add_node(n4, True)
+            Grid.add_zone_node(zone, n4)
             n5 = gsu.Node(p2)
-            node = self.add_node(n5, True)
-            if id(node) == id(n5):
-                zone.add_node(n5)
-            else:
-                n5 = node
+            n5 = self.add_node(n5, True)
+            Grid.add_zone_node(zone, n5)
 
             # Edges
             face1.Edges.remove(edge)
@@ -2018,8 +2011,8 @@ class Grid:
             zone2.add_edge(e46)
             zone2.add_edge(e56)
             if zone2 is not zone:
-                zone2.add_node(n4)
-                zone2.add_node(n5)
+                Grid.add_zone_node(zone2, n4)
+                Grid.add_zone_node(zone2, n5)
                 zone2.add_edge(e14)
                 zone2.add_edge(e25)
                 zone2.add_edge(e45)
-- 
2.43.0


From 4bd1943eefc73775d7725764692235cbbe4ee124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 40/57] fix: segments along the edge of a coplanar triangle do
 not get spurious ends

---
 crysgsu/geom/triangle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 286ce17..fb2326d 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -198,12 +198,14 @@ class Triangle:
             :return: Range of solutions for x.
             """
 
-            if a > 0:
+            eps = 1.0e-10
+
+            if a > eps:
                 return [-b / a, float('Inf')]
-            elif a < 0:
+            elif a < -eps:
                 return [float('-Inf'), -b / a]
             else:
-                if b >= 0:
+                if b >= -eps:
                     return [float('-Inf'), float('Inf')]
                 else:
                     return []
-- 
2.43.0


From 54d94e02195da50a6990e7e20845f22e09ad297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 41/57] fix: write grids of remeshing steps into the output
 directory

---
 crysgsu/remesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/remesh.py b/crysgsu/remesh.py
index e7ae439..fc73921 100644
--- a/crysgsu/remesh.py
+++ b/crysgsu/remesh.py
@@ -84,7 +84,7 @@ if __name__ == '__main__':
         if mesh.find('/') != -1:
             filename = mesh[mesh.rfind('/'):]
         else:
-            filename = mesh
+            filename = '/' + mesh
 
         remesher = TongRemesher(filename, args.json, outdir, verbose=True if args.verbosity > 1 else False)
         remesher(grid)
-- 
2.43.0


From 4334a3c3259ac7703ca1647cfce3451af788211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 42/57] fix: keep identifier of divided cell with its part in
 cut_edge_with_two_nodes

---
 crysgsu/gsu/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 8b0475b..eb5afd0 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1915,9 +1915,9 @@ class Grid:
             f6 = gsu.Face(list(data2.keys()), list(data2.values()))
 
             self.add_face(f1, gloid1)
-            self.add_face(f2, gloid2)
+            self.add_face(f4, gloid2)
+            self.add_face(f2)
             self.add_face(f3)
-            self.add_face(f4)
             self.add_face(f5)
             self.add_face(f6)
 
-- 
2.43.0


From 40ad7a1fd4ec0d4185d73666abcaf462f8c902fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 43/57] fix: a zone name with an equals sign was cut by the
 import of the converters' grid

---
 crysgsu/convert/gsu_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index fade935..5c26690 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -333,7 +333,7 @@ class Grid:
                     pass
                 elif 'ZONE T=' in l:
                     # Зачитываем зону.
-                    z = Zone(l.split('=')[1][1:-2])
+                    z = Zone(l.split('=', 1)[1][1:-2])
                     self.Zones.append(z)
                     l = f.readline()
                     nodes_count = int(l.split('=')[1])
-- 
2.43.0


From 0db757c0d89b08488448365e0896a38d0240e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 44/57] fix: a segment in a sloping plane of a triangle was
 never found to overlap it

---
 crysgsu/geom/triangle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index fb2326d..8b73fd2 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -384,10 +384,9 @@ class Triangle:
 
         det = np.linalg.det(det)
 
-        if det == 0:
-            return True
-        else:
-            return False
+        # The volume is zero relatively to the sizes (exact zero is lost on rounding of a sloping plane).
+        pa, ba, ca = (p - a).mod(), (b - a).mod(), (c - a).mod()
+        return bool(abs(det) <= 1e-10 * max(pa, ba, ca) * ba * ca)
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 71d11ee29ea879402ca287e56e3a567e36fa3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 45/57] fix: a zone name with N= or T= in it broke the
 conversion from ANSYS files

---
 crysgsu/convert/ansys_to_crystal.py | 4 ++--
 crysgsu/convert/gsu_converter.py    | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index cf32c8f..7de88c3 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -153,8 +153,8 @@ def get_zone_nodes_and_elements_count(s):
         Кортеж, содержащий количество узлов и количество элементов.
     """
 
-    # Отрезаем часть строки после 'N=' и ищем в ней все целые числа.
-    nums = re.findall('(\d+)', s.split('N=')[1])
+    # Отрезаем часть строки после 'N=' (не в имени зоны) и ищем в ней все целые числа.
+    nums = re.findall('(\d+)', re.sub('"[^"]*"', '""', s).split('N=')[1])
 
     return int(nums[0]), int(nums[1])
 
diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index 5c26690..7aff370 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -215,9 +215,10 @@ class Grid:
                 elif 'VARIABLES' in l:
                     pass
                 elif 'ZONE' in l:
-                    nums = re.findall('(\d+)', l.split('N=')[1])
+                    # Имя зоны может содержать любые знаки.
+                    nums = re.findall('(\d+)', re.sub('"[^"]*"', '""', l).split('N=')[1])
                     nodes_to_read, elements_to_read = int(nums[0]), int(nums[1])
-                    self.Zones.append(Zone(l.split('T=')[1].split('"')[1]))
+                    self.Zones.append(Zone(l.split('T=', 1)[1].split('"')[1]))
                 else:
                     if nodes_to_read > 0:
                         [x, y, z, htc, beta, taux, tauy, tauz, recovery_factor] = l.split()
-- 
2.43.0


From 85d4ebe05e0197312184e9b197752a52f77fab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 46/57] fix: a solution file cut inside a zone was converted
 from ANSYS files without an error

---
 crysgsu/convert/ansys_to_crystal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 7de88c3..84e5eef 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -271,6 +271,10 @@ def filter_zones(filename, ofilename):
 
                 l = f.readline()
 
+            # Файл не может закончиться посреди зоны.
+            if (nodes_to_read > 0) or (elements_to_read > 0):
+                raise Exception('внутренная ошибка при чтении сетки')
+
     f.close()
     of.close()
 
-- 
2.43.0


From edd2cc06716c2173658fb069c4c32b23f8014228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 47/57] fix: a torn line of calc data or a wrong face id
 silently spoiled cells

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index eb5afd0..aa6562d 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1185,6 +1185,8 @@ class Grid:
             ss = line.split()
             glo_id = int(ss[0])
             values = [float(s) for s in ss[1:]]
+            if (not 0 <= glo_id < len(self.Faces)) or (len(values) != len(variables)):
+                raise Exception('Wrong calc data line ({0}).'.format(line))
             face = self.Faces[glo_id]
             face.Data = dict(zip(variables, values))
             line = f.readline()
-- 
2.43.0


From c92cbec83bb2b6f70b49b1f51e37f1379336b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 48/57] fix: balance tables of different sizes were summed by
 repeating a row

---
 crysgsu/merge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/merge.py b/crysgsu/merge.py
index 20d90ab..c697c9f 100644
--- a/crysgsu/merge.py
+++ b/crysgsu/merge.py
@@ -82,7 +82,10 @@ def merge(grid_file, src_dir, dst_dir):
         t = d[:, :1]
         d = d[:, 1:]
         for csv_file in csv_files[1:]:
-            d = d + read_csv2d(src_dir + '/' + csv_file)[:, 1:]
+            nd = read_csv2d(src_dir + '/' + csv_file)[:, 1:]
+            if nd.shape != d.shape:
+                raise Exception('crys-gsu-merge : wrong size of csv file ({0})'.format(csv_file))
+            d = d + nd
         d = np.hstack((t, d))
         np.savetxt('{0}/../{1}.csv'.format(dst_dir, nm), d, delimiter=";",
                    header='time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es',
-- 
2.43.0


From 6ca1a397f89e5a127c1ca51be24c47f6641bbf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:33 +0000
Subject: [PATCH 49/57] fix: titles of other word counts of zones broke reading
 of air files

---
 crysgsu/drops.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index c8dcf4a..afcdaea 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -4,6 +4,7 @@ Drops realization.
 
 import sys
 import os
+import re
 import numpy as np
 import utils
 import time
@@ -197,10 +198,11 @@ def read_vel_field_from_file(grid_air_file):
             elif 'VARIABLES=' in l:
                 pass
             elif 'ZONE' in l:
-                ss = l.split()[1:]
-                if 'FEBRICK' in ss[0]:
+                # Zone title may contain any words, so drop it.
+                h = re.sub('"[^"]*"', '""', l)
+                ns, es = [int(re.search(r'\b%s\s*=\s*(\d+)' % c, h).group(1)) for c in 'NE']
+                if 'FEBRICK' in l.split()[1]:
                     # Air data.
-                    ns, es = int(ss[5]), int(ss[8])
                     for i in range(ns):
                         l = f.readline()
                         d = l.split()
@@ -213,7 +215,6 @@ def read_vel_field_from_file(grid_air_file):
                         l = f.readline()
                 else:
                     # Not air data. Ignore all.
-                    ns, es = int(ss[4]), int(ss[7])
                     for i in range(ns + es):
                         l = f.readline()
             else:
-- 
2.43.0


From f70335a5f90c0f71e673e91aef41bd6829b2f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 50/57] fix: store variables of all faces, not only of the
 first one

---
 crysgsu/gsu/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index aa6562d..287184c 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -640,7 +640,8 @@ class Grid:
         :param filename: file name
         """
 
-        variables = ['X', 'Y', 'Z'] + list(self.Faces[0].Data.keys())
+        # Faces may have different sets of data.
+        variables = ['X', 'Y', 'Z'] + list(dict.fromkeys(k for face in self.Faces for k in face.Data))
 
         with open(filename, 'w', newline='\n') as f:
 
-- 
2.43.0


From 8de752ee3fa0608e2a11183357602adbd8b6091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:58 +0000
Subject: [PATCH 51/57] fix: refuse ANSYS data without any of the requested
 zones

---
 crysgsu/convert/ansys_to_crystal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 84e5eef..12c9dd1 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -245,7 +245,7 @@ def filter_zones(filename, ofilename):
         with open(ofilename, 'w') as of:
 
             # Цикл по всем строкам входного файла.
-            nodes_to_read, elements_to_read = 0, 0
+            nodes_to_read, elements_to_read, is_found = 0, 0, False
             l = f.readline()
             while l:
 
@@ -261,6 +261,7 @@ def filter_zones(filename, ofilename):
                         if is_str_zone_to_extract(l):
                             of.write(l)
                             nodes_to_read, elements_to_read = nodes_count, elements_count
+                            is_found = True
                 else:
                     if nodes_to_read > 0:
                         of.write(l)
@@ -275,6 +276,10 @@ def filter_zones(filename, ofilename):
             if (nodes_to_read > 0) or (elements_to_read > 0):
                 raise Exception('внутренная ошибка при чтении сетки')
 
+            # Хотя бы одна из зон должна быть найдена.
+            if not is_found:
+                raise Exception('в файле %s нет зон %s' % (filename, zones_to_extract))
+
     f.close()
     of.close()
 
-- 
2.43.0


From 13cd7bd7411194b22493a49b9bfc3cde6d3c6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 52/57] fix: put MImp2, Vd2 and RecoveryFactor of cells into
 the array view

---
 crysgsu/gsu/zone.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/zone.py b/crysgsu/gsu/zone.py
index f20aa1b..ffe4b13 100644
--- a/crysgsu/gsu/zone.py
+++ b/crysgsu/gsu/zone.py
@@ -205,10 +205,9 @@ class Zone:
         """
         gloids, ts, hws = list(), list(), list()
         his, htcs, betas = list(), list(), list()
-        mimp2s = np.zeros((len(self.Faces)), dtype=np.double)
-        vd2s =  np.zeros((len(self.Faces)), dtype=np.double)
+        mimp2s, vd2s = list(), list()
         tauxs, tauys, tauzs = list(), list(), list()
-        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.double)
+        recoveryfactors = list()
 
         for f in self.Faces:
             gloids.append(f.GloId)
@@ -217,9 +216,12 @@ class Zone:
             his.append(f['Hi'])
             htcs.append(f['HTC'])
             betas.append(f['Beta'])
+            mimp2s.append(f['MImp2'])
+            vd2s.append(f['Vd2'])
             tauxs.append(f['TauX'])
             tauys.append(f['TauY'])
             tauzs.append(f['TauZ'])
+            recoveryfactors.append(f['RecoveryFactor'])
         return np.array([gloids, ts, hws, his, htcs, betas, mimp2s, vd2s, tauxs, tauys, tauzs, recoveryfactors], dtype=np.double).T
 
     def connectivity_list_faces_nodes(self):
-- 
2.43.0


From d3132a438bf28c1966f25b496bddecd8bb1d707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 53/57] fix: solve the volume equation of a cell at any scale
 of the grid

---
 crysgsu/remeshing.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 4219d26..e080816 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -674,8 +674,6 @@ class TongRemesher:
         Requirement FR.RM.MT.TN.05.
         """
 
-        eps = 1.0e-10
-
         # First define ice shifts in faces.
         # We use formula from Tong's article for obtaining volume of prizmatoid from its height.
         # V = a * h + b * h * h + c * h * h * h
@@ -688,7 +686,7 @@ class TongRemesher:
             f.ice_shift = f.ice_chunk / f.get_triangle().area()
 
             # Trying to calculate more accurately.
-            if f.ice_chunk > eps:
+            if f.ice_chunk > 0.0:
                 a, b, _ = geom.utils.prizmatoid_volume_coefs(f.Nodes[0].P,
                                                              f.Nodes[1].P,
                                                              f.Nodes[2].P,
@@ -697,18 +695,13 @@ class TongRemesher:
                                                              f.Nodes[2].ice_dir,
                                                              f.get_triangle().normal_orth())
 
-                # Check if it is needed to solve square equation.
-                if abs(b) > eps:
-                    d = a * a + 4.0 * b * f.ice_chunk
-                    if d >= 0.0:
-                        d = math.sqrt(d)
-                        h1, h2 = (-a + d) / (2.0 * b), (-a - d) / (2.0 * b)
-                        if (h1 >= 0.0) and (h2 >= 0.0):
-                            f.ice_shift = min(h1, h2)
-                        elif h1 >= 0.0:
-                            f.ice_shift = h1
-                        elif h2 >= 0.0:
-                            f.ice_shift = h2
+                # Solve square equation, take the least not negative root (if there is any).
+                # This form of the root is accurate for any b and any size of the grid.
+                d = a * a + 4.0 * b * f.ice_chunk
+                if d >= 0.0:
+                    s = a + math.sqrt(d)
+                    if s > 0.0:
+                        f.ice_shift = 2.0 * f.ice_chunk / s
 
         # Define ice shifts for nodes.
         for n in self.grid.Nodes:
-- 
2.43.0


From 0c7ebc8a7a51c47a176a119c4d58354237a07528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 54/57] fix: explosion of a grid with an empty zone divided by
 zero

---
 crysgsu/gsu/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 287184c..6869f2a 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1143,6 +1143,10 @@ class Grid:
         # Move each zone.
         for z in self.Zones:
 
+            # There is nothing to move in empty zone.
+            if len(z.Nodes) == 0:
+                continue
+
             # Zone mean point.
             z_mean = mean_p(z.Nodes)
             shift = (z_mean - g_mean) * k
-- 
2.43.0


From 06be01f174f510211ef31048cec30fd829b90b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:06 +0000
Subject: [PATCH 55/57] fix: a zone named like a keyword of the grid file could
 not be loaded

---
 crysgsu/gsu/grid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 6869f2a..df263bd 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -510,18 +510,21 @@ class Grid:
             line = f.readline()
             while line:
 
+                # Names of zones may look like keywords, so only the first of them counts.
+                head = line.split('=', 1)[0] + '='
+
                 if line[0] == '#':
                     # Comment.
                     pass
-                elif 'TITLE=' in line:
+                elif 'TITLE=' in head:
                     self.Name = line.split('=', 1)[1][1:-2]
-                elif 'VARIABLES=' in line:
+                elif 'VARIABLES=' in head:
                     variables_str = line.split('=', 1)[1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
                     face_variables = variables[3:]
                     face_variables_count = len(face_variables)
 
-                elif 'ZONE T=' in line:
+                elif 'ZONE T=' in head:
 
                     # Create new zone.
                     zone_name = line.split('=', 1)[1][1:-2]
-- 
2.43.0


From 6cbf4e7c302955c49a0bb1dee02ab070a79b48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:45 +0000
Subject: [PATCH 56/57] fix: a zone name with a header keyword in it is not a
 header line for the converters

---
 crysgsu/convert/ansys_to_crystal.py |  6 +++---
 crysgsu/convert/gsu_converter.py    | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 12c9dd1..b1b82b1 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -61,7 +61,7 @@ def is_str_title(s):
         False -- в противном случае.
     """
 
-    return 'TITLE' in s
+    return 'TITLE' in s.split('"')[0]
 
 # --------------------------------------------------------------------------------------------------
 
@@ -78,7 +78,7 @@ def is_str_variables(s):
         False -- в противном случае.
     """
 
-    return 'VARIABLES' in s
+    return 'VARIABLES' in s.split('"')[0]
 
 # --------------------------------------------------------------------------------------------------
 
@@ -95,7 +95,7 @@ def is_str_zone(s):
         False -- в противном случае.
     """
 
-    return 'ZONE' in s
+    return 'ZONE' in s.split('"')[0]
 
 # --------------------------------------------------------------------------------------------------
 
diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index 7aff370..590d7c6 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -210,12 +210,13 @@ class Grid:
             l = f.readline()
             while l:
 
-                if 'TITLE' in l:
+                # Имя зоны может содержать любые знаки, ключевое слово стоит до него.
+                key = l.split('"')[0]
+                if 'TITLE' in key:
                     pass
-                elif 'VARIABLES' in l:
+                elif 'VARIABLES' in key:
                     pass
-                elif 'ZONE' in l:
-                    # Имя зоны может содержать любые знаки.
+                elif 'ZONE' in key:
                     nums = re.findall('(\d+)', re.sub('"[^"]*"', '""', l).split('N=')[1])
                     nodes_to_read, elements_to_read = int(nums[0]), int(nums[1])
                     self.Zones.append(Zone(l.split('T=', 1)[1].split('"')[1]))
@@ -322,14 +323,15 @@ class Grid:
             l = f.readline()
             while l:
 
-                # Обработка строки.
-                if 'EXPORT_MODE' in l:
+                # Обработка строки (ключевое слово стоит до имени зоны).
+                key = l.split('"')[0]
+                if 'EXPORT_MODE' in key:
                     # Пропускаем шапку.
                     pass
-                elif 'TITLE' in l:
+                elif 'TITLE' in key:
                     # Пропускаем заголовок.
                     pass
-                elif 'VARIABLES' in l:
+                elif 'VARIABLES' in key:
                     # Пропускаем список переменных.
                     pass
                 elif 'ZONE T=' in l:
-- 
2.43.0


From 9a3c8bdf8a3f80fd09b4b2df98d056409fb15e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:41 +0000
Subject: [PATCH 57/57] fix: an air zone titled like a header keyword is not a
 header line

---
 crysgsu/drops.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index afcdaea..80fe9a9 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -193,11 +193,13 @@ def read_vel_field_from_file(grid_air_file):
         l = f.readline()
         while l:
 
-            if 'TITLE=' in l:
+            # Keyword of the line stands before any title.
+            key = l.split('"')[0]
+            if 'TITLE=' in key:
                 pass
-            elif 'VARIABLES=' in l:
+            elif 'VARIABLES=' in key:
                 pass
-            elif 'ZONE' in l:
+            elif 'ZONE' in key:
                 # Zone title may contain any words, so drop it.
                 h = re.sub('"[^"]*"', '""', l)
                 ns, es = [int(re.search(r'\b%s\s*=\s*(\d+)' % c, h).group(1)) for c in 'NE']
-- 
2.43.0

