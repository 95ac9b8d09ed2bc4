From 791c2d303a4f7ac03a6ca6615312b141470362b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:12 +0000
Subject: [PATCH 01/19] fix: Vec constructor no longer writes past the end of
 2D vectors

---
 src/tinymesh/core/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 76ae2e9..cb8a4cf 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -32,8 +32,8 @@ public:
         std::fill(elems.begin(), elems.end(), w);
 
         elems[0] = x;
-        if (Dims >= 1) elems[1] = y;
-        if (Dims >= 2) elems[2] = z;
+        if (Dims >= 2) elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
     }
 
     explicit Vec(const Vec &other) {
-- 
2.43.0


From ee805e145c1cfcbc6344dd25cc610ceba224acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:12 +0000
Subject: [PATCH 02/19] fix: subtracting a scalar from a vector (or vice versa)
 multiplied instead

---
 src/tinymesh/core/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index cb8a4cf..a93d146 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -221,14 +221,14 @@ Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
     auto ret = v;
-    ret *= s;
+    ret -= Vec<Float, Dims>(s);
     return ret;
 }
 
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
+    auto ret = Vec<Float, Dims>(s);
+    ret -= v;
     return ret;
 }
 template <typename Float, int Dims>
-- 
2.43.0


From 8fbf992dc4488f3c0cff8e7cb7342ca7caa8e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:11 +0000
Subject: [PATCH 03/19] fix: refuse to flip boundary edges

---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index db11b9c..d007c5d 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -871,6 +871,11 @@ bool Mesh::flipHE(Halfedge *he) {
         Error("Flip is called boundary halfedge!");
     }
 
+    // Boundary edges have only one triangle and cannot be flipped
+    if (he->isBoundary() || rev->isBoundary()) {
+        return false;
+    }
+
     Vertex *u0 = he->src();
     Vertex *u1 = he->prev()->src();
     Vertex *u2 = rev->src();
-- 
2.43.0


From c87fe5b8695599009c65d4ddaba5ee672ce1c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:39 +0000
Subject: [PATCH 04/19] fix: measure the second vertex region of the triangle
 from its own vertex

The closest-point test for the second vertex used the vector from the third
vertex, so queries near the second vertex or its edges got a wrong point.
---
 src/tinymesh/core/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/triangle.cpp b/src/tinymesh/core/triangle.cpp
index 77c46ca..134f60d 100644
--- a/src/tinymesh/core/triangle.cpp
+++ b/src/tinymesh/core/triangle.cpp
@@ -16,7 +16,7 @@ Vec3 Triangle::closestPoint(const Vec3 &p) const {
     const double d2 = dot(ac, ap);
     if (d1 <= 0.0 && d2 <= 0.0) return p0;  //#1
 
-    const Vec3 bp = p - p2;
+    const Vec3 bp = p - p1;
     const double d3 = dot(ab, bp);
     const double d4 = dot(ac, bp);
     if (d3 >= 0.0 && d4 <= d3) return p1;  //#2
-- 
2.43.0


From a5123f7ad9483665a714bf25c372330643b4f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:19 +0000
Subject: [PATCH 05/19] fix: report linear systems that could not be solved

Implicit fairing, hole filling and feature detection used the result of
their sparse solvers without looking at the solver status.  They now print
the same warning as L0 denoising does when the solution failed.
---
 src/tinymesh/core/completion.cpp    | 3 +++
 src/tinymesh/filters/smooth.cpp     | 3 +++
 src/tinymesh/ops/features.cpp       | 3 +++
 src/tinymesh/restore/completion.cpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 8219f3a..68cdf76 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -692,6 +692,9 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
     EigenMatrix bb = bbInner - SS * xxOuter;
     Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
     EigenMatrix xx = solver.solve(bb);
+    if (solver.info() != Eigen::Success) {
+        Warn("Solve linear system failed\n");
+    }
 
     for (auto it : uniqueInner) {
         Vertex *v = it.first;
diff --git a/src/tinymesh/filters/smooth.cpp b/src/tinymesh/filters/smooth.cpp
index 65b5b43..e961020 100644
--- a/src/tinymesh/filters/smooth.cpp
+++ b/src/tinymesh/filters/smooth.cpp
@@ -157,6 +157,9 @@ void implicitFairing(Mesh &mesh, double epsilon, int iterations) {
 
         Eigen::MatrixXd Xnext(n_verts, 3);
         Xnext = cg.solve(X);
+        if (cg.info() != Eigen::Success) {
+            Warn("Solve linear system failed\n");
+        }
 
         for (int i = 0; i < n_verts; i++) {
             const Vec3 newpos = Vec3(Xnext(i, 0), Xnext(i, 1), Xnext(i, 2));
diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 39c8372..11418b9 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -720,6 +720,9 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
     EigenMatrix bb = -SS * xxRV;
     Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
     EigenMatrix xx = solver.solve(bb);
+    if (solver.info() != Eigen::Success) {
+        Warn("Solve linear system failed\n");
+    }
 
     for (auto it : uniqueNonRV) {
         const int i = it.second;
diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 869f815..f04f18b 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -491,6 +491,9 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
         EigenMatrix bb = -SS * xxSrc;
         Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
         EigenMatrix xx = solver.solve(bb);
+        if (solver.info() != Eigen::Success) {
+            Warn("Solve linear system failed\n");
+        }
 
         for (int i = 0; i < nTgt; i++) {
             offsets[tgtIds[i]] = Vec3(xx(i, 0), xx(i, 1), xx(i, 2));
-- 
2.43.0


From 6d30a828439f8b62634bd7c8db3696358584cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:02 +0000
Subject: [PATCH 06/19] fix: look signatures up without inserting inside a
 parallel loop

The subscript operator of a map may insert and counts as a modification, so
using it from several threads at once on the shared table is a data race.
---
 src/tinymesh/restore/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index f04f18b..aaf6b69 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -285,7 +285,7 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
             hksMean.setZero();
             hksSigma.setZero();
             for (auto v : patchVerts[i]) {
-                const EigenVector f = hksTable[v];
+                const EigenVector f = hksTable.at(v);
                 hksMean += f;
                 hksSigma += f.cwiseProduct(f);
             }
-- 
2.43.0


From b0ffd2b739f6e44e75a595e4efd35c56d4d976d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:07 +0000
Subject: [PATCH 07/19] fix: forget the old triangles when a mesh object is
 filled again

---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index d007c5d..e79d238 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -71,6 +71,7 @@ void Mesh::load(const std::string &filename) {
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     // Load new mesh
     const std::string ext = fs::path(filename.c_str()).extension().string();
@@ -90,6 +91,7 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
-- 
2.43.0


From ca6a55919445ebeaa098e46c1041a5ee68d3bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:02 +0000
Subject: [PATCH 08/19] fix: hold no reference into the half-edge list while it
 grows

---
 src/tinymesh/core/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index e79d238..9077869 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -302,7 +302,7 @@ void Mesh::construct() {
     // Construct new faces (possibly non-triangle) for each boundary components
     const auto numHalfedges = static_cast<int>(halfedges_.size());
     for (int i = 0; i < numHalfedges; i++) {
-        auto &he = halfedges_[i];
+        auto he = halfedges_[i];
         Assertion(he.get() != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
-- 
2.43.0


From 48ac1bd89fdbe7a277f903b1af59fb63768c8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:18 +0000
Subject: [PATCH 09/19] fix: report a face collapse whenever the mesh was
 changed

Collapsing a face collapses two of its edges one after the other.
When only the first of them succeeded the call returned false, so the
caller kept iterating over elements that no longer belong to the mesh.
---
 src/tinymesh/core/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 9077869..b173524 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -856,7 +856,7 @@ bool Mesh::collapseFace(Face *f) {
     bool ret = collapseHE(he1);
     Assertion(he2->index() >= 0 && he2->index() < numHalfedges(), "Error!!");
 
-    ret &= collapseHE(he2);
+    ret |= collapseHE(he2);
 
     return ret;
 
-- 
2.43.0


From 1a51b10d0ff809e24c0e4a73de88faf0660760d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:20 +0000
Subject: [PATCH 10/19] fix: report when a mesh file cannot be opened or
 written completely

Saving a PLY file tested the stream instead of the opened file buffer, so a
file that could not be opened went unnoticed. Neither saver looked at the
stream after writing, so a full disk produced a truncated file silently.
---
 src/tinymesh/core/mesh.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index b173524..dbb714f 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -506,19 +506,21 @@ void Mesh::saveOBJ(const std::string &filename) const {
     }
 
     writer.close();
+    if (writer.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 void Mesh::savePLY(const std::string &filename) const {
     using namespace tinyply;
 
     std::filebuf buffer;
-    buffer.open(filename.c_str(), std::ios::out | std::ios::binary);
-
-    std::ostream outstream(&buffer);
-    if (outstream.fail()) {
+    if (!buffer.open(filename.c_str(), std::ios::out | std::ios::binary)) {
         Error("Failed to open file: %s", filename.c_str());
     }
 
+    std::ostream outstream(&buffer);
+
     std::vector<float> vertexData(vertices_.size() * 3);
     for (size_t i = 0; i < vertices_.size(); i++) {
         const Vec3 v = vertices_[i]->pos();
@@ -559,6 +561,11 @@ void Mesh::savePLY(const std::string &filename) const {
     plyfile.get_comments().push_back("generated by tinyply 2.2");
 
     plyfile.write(outstream, true);
+
+    outstream.flush();
+    if (outstream.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 bool Mesh::splitHE(Halfedge *he) {
-- 
2.43.0


From 5badc7641444fb91f7cf1ade352f7a593ca899cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:53:17 +0000
Subject: [PATCH 11/19] fix: measure collapsed edges from the vertex that
 remains

Remeshing checks that a collapse creates no long edge. Collapsing keeps the
end point with the smaller degree, but the check always measured from the
start of the edge, so long edges could appear.
---
 src/tinymesh/remesh/remesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/remesh/remesh.cpp b/src/tinymesh/remesh/remesh.cpp
index 265a92d..ed5842d 100644
--- a/src/tinymesh/remesh/remesh.cpp
+++ b/src/tinymesh/remesh/remesh.cpp
@@ -134,6 +134,10 @@ void remeshTriangular(Mesh &mesh, double shortLength, double longLength, double
                     // Check if collapse does not generate long edge
                     Vertex *a = he->src();
                     Vertex *b = he->dst();
+                    if (a->degree() > b->degree()) {
+                        // The vertex with the smaller degree remains
+                        std::swap(a, b);
+                    }
                     bool collapseOK = true;
                     for (auto vit = b->v_begin(); vit != b->v_end(); ++vit) {
                         if (length(a->pos() - vit->pos()) >= Lavg * longLength) {
-- 
2.43.0


From 2d25dccf0d39505875ba033caf7140da7e03ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:03 +0000
Subject: [PATCH 12/19] fix: refuse edge collapses that turn a triangle over

The test compared the orientation of each triangle only with the one before
it, so a change of sign next to the vanishing triangles or between the last
and the first neighbour went unnoticed. The reference normal is already
oriented, so each triangle can be tested on its own.
---
 src/tinymesh/core/mesh.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index dbb714f..74f7f36 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -781,16 +781,14 @@ bool Mesh::collapseHE(Halfedge *he) {
     }
     norm = normalize(norm);
 
-    double sign = 0.0;
     for (size_t i = 0; i < neighbors.size(); i++) {
         const size_t j = (i + 1) % neighbors.size();
         const Vec3 e1 = neighbors[i]->pos() - v0->pos();
         const Vec3 e2 = neighbors[j]->pos() - v0->pos();
         const double s = dot(norm, cross(e1, e2));
-        if (sign * s < 0.0) {
+        if (s < 0.0) {
             return false;
         }
-        sign = s;
     }
 
     // Update origins of all outward halfedges
-- 
2.43.0


From d7415dc7425308efbcdc673793ff45d40e67eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:55:12 +0000
Subject: [PATCH 13/19] fix: mean curvature is half of the mean curvature
 normal

The curvature normal of Meyer et al. has twice the mean curvature as its
length, so a unit sphere was reported with mean curvature 2 instead of 1.
---
 src/tinymesh/core/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/vertex.cpp b/src/tinymesh/core/vertex.cpp
index 1fb9bb8..d19199e 100644
--- a/src/tinymesh/core/vertex.cpp
+++ b/src/tinymesh/core/vertex.cpp
@@ -229,7 +229,7 @@ double Vertex::H() const {
             }
         }
     }
-    return -1.0 * dot(laplace, this->normal()) / (2.0 * sumAreas);
+    return -1.0 * dot(laplace, this->normal()) / (4.0 * sumAreas);
 }
 
 Vertex::VertexIterator Vertex::v_begin() {
-- 
2.43.0


From fe4a8b2f64e6ecb4b555bb1a290f8afa497a8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:55:12 +0000
Subject: [PATCH 14/19] fix: leave holes out of the mean face area

The faces that close holes are not part of the surface, and their area is
not even defined by the sum over consecutive corners.
---
 src/tinymesh/core/mesh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 74f7f36..1731305 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -177,10 +177,15 @@ double Mesh::getMeanDihedralAngle() const {
 
 double Mesh::getMeanFaceArea() const {
     double mean = 0.0;
+    int count = 0;
     for (size_t i = 0; i < faces_.size(); i++) {
+        if (faces_[i]->isHole()) {
+            continue;
+        }
         mean += faces_[i]->area();
+        count++;
     }
-    mean /= (double)faces_.size();
+    mean /= (double)count;
     return mean;
 }
 
-- 
2.43.0


From 8e57ff972464381b6b3aa781bc2d3713576bdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:14 +0000
Subject: [PATCH 15/19] fix: report face indices outside the vertex list

Building a mesh from lists, or loading an OBJ or PLY file, read vertex
positions through the face indices without comparing them with the
number of vertices. Indices out of range are now reported, and so is an
index list whose length is not a multiple of three.
---
 src/tinymesh/core/mesh.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 1731305..89e0699 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -93,9 +93,16 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     faces_.clear();
     indices_.clear();
 
+    if (indices.size() % 3 != 0) {
+        Error("Number of indices must be a multiple of three!");
+    }
+
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index out of range: %d", (int)i);
+        }
         const Vec3 &pos = vertices[i];
 
         if (uniqueVertices.count(pos) == 0) {
@@ -395,6 +402,9 @@ void Mesh::loadOBJ(const std::string &filename) {
         for (const auto &index : shape.mesh.indices) {
             Vec3 v;
             if (index.vertex_index >= 0) {
+                if ((size_t)index.vertex_index >= attrib.vertices.size() / 3) {
+                    Error("Vertex index out of range: %d", index.vertex_index);
+                }
                 v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
                          attrib.vertices[index.vertex_index * 3 + 2]);
             }
@@ -465,6 +475,9 @@ void Mesh::loadPLY(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : raw_indices) {
+        if (i >= numVerts) {
+            Error("Vertex index out of range: %d", (int)i);
+        }
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
             uniqueVertices[pos] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0


From d891bca6cf9805eae0ac590adbccbf82c534eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:14 +0000
Subject: [PATCH 16/19] fix: report vertices without a face before following
 their links

The test for vertices that no polygon refers to came after the links of
such vertices had been followed, so that a null pointer was dereferenced
instead. Test where the links are followed first.
---
 src/tinymesh/core/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 89e0699..b6d6bb5 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -301,6 +301,9 @@ void Mesh::construct() {
     // For convenience, advance halfedge of each boundary vertex to one that is on the boundary
     for (auto v : vertices_) {
         Halfedge *he = v->halfedge_;
+        if (he == nullptr) {
+            Error("Some vertices are not referenced by any polygon!");
+        }
         do {
             if (he->rev_ == nullptr) {
                 v->halfedge_ = he;
-- 
2.43.0


From f836b282c443bbf8e629832d043a46d5ebe9fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:14 +0000
Subject: [PATCH 17/19] fix: drop every degenerate triangle when a mesh is
 built

A degenerate triangle is replaced by the last one of the list, which was
then passed over without being examined. If it was degenerate too, the
mesh was rejected although such triangles are meant to be dropped.
---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index b6d6bb5..d4ef24f 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -197,7 +197,7 @@ double Mesh::getMeanFaceArea() const {
 }
 
 void Mesh::construct() {
-    for (size_t i = 0; i < indices_.size(); i += 3) {
+    for (size_t i = 0; i < indices_.size();) {
         if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||
             indices_[i + 2] == indices_[i + 0]) {
             const int size = (int)indices_.size();
@@ -205,6 +205,8 @@ void Mesh::construct() {
             std::swap(indices_[i + 1], indices_[size - 2]);
             std::swap(indices_[i + 2], indices_[size - 1]);
             indices_.resize(size - 3);
+        } else {
+            i += 3;
         }
     }
 
-- 
2.43.0


From 52295e63864c147a5aa8a95e995744b890f3a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:38:32 +0000
Subject: [PATCH 18/19] fix: make the weight of normal denoising fall steadily
 with distance

The kernel is a Gaussian up to two standard deviations and a polynomial up to
four. The Gaussian lacked the factor two in its exponent, so the weight rose
by a factor of e^2 where the polynomial takes over.
---
 src/tinymesh/filters/denoise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index c335a53..6bb06fd 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -20,7 +20,7 @@ inline double K(double x, double sigma) {
     const double sigma2 = sigma * sigma;
     const double coef = 1.0 / (std::sqrt(2.0 * Pi) * sigma);
     if (x < 2.0 * sigma) {
-        return coef * std::exp(-x * x / sigma2);
+        return coef * std::exp(-x * x / (2.0 * sigma2));
     }
 
     if (x < 4.0 * sigma) {
-- 
2.43.0


From b7bdad781444dc6b1a6ef1ae66a0186102cba3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:09:49 +0000
Subject: [PATCH 19/19] fix: return the principal directions with the
 curvatures they belong to

The larger principal curvature was returned together with the direction of
the smaller one and vice versa.
---
 src/tinymesh/ops/features.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 11418b9..5f12399 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -60,10 +60,10 @@ void getPrincipalCurvaturesFromTensors(std::vector<double> &ks_max, std::vector<
         double k_max = M(1, 1) + tt * M(0, 1);
         Vec3 t_min, t_max;
         if (k_max > k_min) {
-            t_max = c * up - s * vp;
+            t_max = s * up + c * vp;
         } else {
             std::swap(k_min, k_max);
-            t_max = s * up + c * vp;
+            t_max = c * up - s * vp;
         }
         t_min = normalize(cross(np, t_max));
 
-- 
2.43.0

