From 777a461d92c5150c412a4f6792645748b1fd4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 01/38] fix: Graph::removeEdge refuses the id one past the last
 edge

removeEdge(edgeCount()) used to write past the edge vector and push an
id into the free pool that was never allocated.
---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..b148888 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -99,7 +99,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From 76ad3183fff0dd1e808360c31429a34993e4c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 02/38] fix: Graph::removeEdge detaches the edge from both of
 its nodes

The nodes kept pointers to the destroyed edge; walking the adjacency
lists afterwards (as the loop detector does) read freed memory.
---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b148888..4a966f1 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -2,6 +2,7 @@
 #define NDT_GSLAM_POSE_GRAPH
 
 #include <Eigen/Eigen>
+#include <algorithm>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -104,6 +105,14 @@ bool Graph<P, T>::removeEdge(Id edge_id)
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
     return false;
+  // nodes must not keep pointers to the destroyed edge
+  E* edge = edges_[edge_id].get();
+  auto& edges_out = nodes_[edge->getFrom()->getId()]->getEdgesOut();
+  edges_out.erase(std::remove(edges_out.begin(), edges_out.end(), edge),
+                  edges_out.end());
+  auto& edges_in = nodes_[edge->getTo()->getId()]->getEdgesIn();
+  edges_in.erase(std::remove(edges_in.begin(), edges_in.end(), edge),
+                 edges_in.end());
   id_edge_pool_.push_back(edge_id);
   edges_[edge_id].reset(nullptr);
   return true;
-- 
2.43.0


From ca1257bc6da37bf23e64c28651167e6f0dcc4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 03/38] fix: graph iterators skip removed edges safely at both
 ends of the list

Prefix increment dereferenced the end iterator and begin did not skip
leading removed edges, so iteration yielded null references.
---
 .../include/ndt_gslam/slam_optimizer/pose_graph.h    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 4a966f1..9bfd2bd 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -269,12 +269,16 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // list may start with removed elements
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
@@ -327,12 +331,16 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // list may start with removed elements
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
-- 
2.43.0


From ba5230ac5bd31700a8d32f885f8e4eb2220ef936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 04/38] fix: Graph::printNodes compiles when used

It tried to copy unique_ptr elements.
---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 9bfd2bd..db63776 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -246,7 +246,7 @@ size_t Graph<P, T>::nodeCount()
 template <typename P, typename T>
 void Graph<P, T>::printNodes(std::ostream& out)
 {
-  for (auto nd : nodes_) {
+  for (auto& nd : nodes_) {
     nd->printNode(out);
   }
 }
-- 
2.43.0


From 33620caf178b560d79f2e32c389005fc7d20f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 05/38] fix: copying a VoxelGrid2D copies its cells

The copy held twice the cells, the first half of them empty, and the
copy constructor dereferenced empty cells of the source.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..4fbf293 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -310,10 +310,12 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , valid_cells_(other.valid_cells_)
 {
   cells_.resize(other.cells_.size());
-  for (const std::unique_ptr<CellType>& cell : other.cells_) {
+  for (size_t i = 0; i < other.cells_.size(); ++i) {
+    if (other.cells_[i].get() == nullptr)
+      continue;
     CellType* new_cell = new CellType;
-    *new_cell = *cell;
-    cells_.emplace_back(new_cell);
+    *new_cell = *other.cells_[i];
+    cells_[i].reset(new_cell);
   }
 }
 
-- 
2.43.0


From 1ecda06c3cba5aeecc0dba76c3ad5e87ce72ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 06/38] fix: VoxelGrid2D::removeCell returns a value on every
 path

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 4fbf293..bfe9f3c 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -384,10 +384,11 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
   if (!isInside(posistion))
     return false;
   size_t idx = calcIndex(posistion);
-  if (cells_[idx].get() != nullptr) {
-    --valid_cells_;
-  }
+  if (cells_[idx].get() == nullptr)
+    return false;
+  --valid_cells_;
   cells_[idx].reset(nullptr);
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From 6e7eea8d6ecd3ccd9b526ad18f8514be7cfaf9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 07/38] fix: VoxelGrid2D::validCells counts the cells the grid
 really holds

clear(), rayTrace() and translate(discard) changed the cells without
updating the count.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index bfe9f3c..bb38852 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -549,6 +549,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -558,6 +559,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -598,6 +600,8 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  // cells moved over the border were discarded
+  valid_cells_ = getValidCellsPtr().size();
 }
 
 template <typename CellType>
@@ -606,6 +610,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From e143bb885b6172c913fc26b3618ccc90b80e41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 08/38] fix: VoxelGrid2D::getCentroid compiles when used

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index bb38852..d08641c 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -472,9 +472,11 @@ VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
   double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
+      (static_cast<long>(coords.first) - static_cast<long>(left())) *
+      cell_size_;
   double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+      -(static_cast<long>(coords.second) - static_cast<long>(up())) *
+      cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From 32c5b4e56927a0c58abb76ae8eb0392f21bf64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 09/38] fix: VoxelGrid2D bounds check agrees with the cell
 lookup

Points on the right and bottom border (and points the float arithmetic of
the enlargement rounded onto it) counted as inside but were looked up in
the next row or past the end of the grid.
---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 59 ++++++++++---------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index d08641c..ab3ef6c 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -266,6 +266,10 @@ private:
   size_t calcIndex(const std::pair<size_t, size_t>& coords) const;
   // <colls, rows> of table
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
+  // column (row) of the cell with the point, relative to the centroid cell.
+  // Grows to the right (down).
+  double calcOffsetX(const Point& pt) const;
+  double calcOffsetY(const Point& pt) const;
 
   void enlargeToFit(const Point& pt);
   size_t calcIncLeft(float pt) const;
@@ -394,15 +398,12 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
 template <typename CellType>
 bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
-  if (pt(0) >=
-          -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
-          -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
-      pt(1) <= height_up_ * cell_size_ + cell_size_half_)
-    return true;
-  else
-    return false;
+  double col = calcOffsetX(pt);
+  double row = calcOffsetY(pt);
+  return col >= -static_cast<double>(width_left_) &&
+         col <= static_cast<double>(width_right_) &&
+         row >= -static_cast<double>(height_up_) &&
+         row <= static_cast<double>(height_down_);
 }
 
 template <typename CellType>
@@ -523,13 +524,6 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   Point start_in;
   bool end_indise = false;
   Point delta;
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
-
   if (!isInside(start)) {
     return res;
   }
@@ -567,7 +561,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
       // std::cout << p.transpose() << std::endl;
     }
     p += delta;
-    if (p(0) >= maxx || p(0) <= minx || p(1) >= maxy || p(1) <= miny)
+    if (!isInside(p))
       return res;
     idx_old = idx_current;
     idx_current = calcIndex(p);
@@ -655,24 +649,35 @@ std::pair<size_t, size_t>
 VoxelGrid2D<CellType>::calcCoordinates(const Point& pt) const
 {
   std::pair<size_t, size_t> coords;
-  float minx = cell_size_ * width_left_;
-  float maxy = cell_size_ * height_up_;
-  coords.first = static_cast<size_t>(
-      std::floor((pt(0) + minx + cell_size_half_) / cell_size_));
-  coords.second = static_cast<size_t>(
-      std::floor((-pt(1) + maxy + cell_size_half_) / cell_size_));
+  coords.first = static_cast<size_t>(calcOffsetX(pt) + width_left_);
+  coords.second = static_cast<size_t>(calcOffsetY(pt) + height_up_);
   return coords;
 }
 
+template <typename CellType>
+double VoxelGrid2D<CellType>::calcOffsetX(const Point& pt) const
+{
+  return std::floor((pt(0) + cell_size_half_) / cell_size_);
+}
+
+template <typename CellType>
+double VoxelGrid2D<CellType>::calcOffsetY(const Point& pt) const
+{
+  return std::floor((-pt(1) + cell_size_half_) / cell_size_);
+}
+
 template <typename CellType>
 void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 {
-  // keep in sync with calculation in isInside. Mostly operator< and widths
-  // calculations
   if (isInside(pt))
     return;
-  enlargeGrid(calcIncLeft(pt(0)), calcIncRight(pt(0)), calcIncUp(pt(1)),
-              calcIncDown(pt(1)));
+  double col = calcOffsetX(pt);
+  double row = calcOffsetY(pt);
+  enlargeGrid(
+      static_cast<size_t>(std::max(0.0, -col - width_left_)),
+      static_cast<size_t>(std::max(0.0, col - width_right_)),
+      static_cast<size_t>(std::max(0.0, -row - height_up_)),
+      static_cast<size_t>(std::max(0.0, row - height_down_)));
 }
 
 template <typename CellType>
-- 
2.43.0


From b840824cb9ede6d8956b3892f60422eeba14fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 10/38] fix: VoxelGrid2D::rayTrace stops at the end of a short
 ray

For rays shorter than one cell the step count underflowed: the ray ran on
to the border of the grid, and start == end looked up a NaN position.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index ab3ef6c..1801c37 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -548,6 +548,9 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
+  // ray shorter than a cell does not leave neighbourhood of the start
+  if (length < 1)
+    return res;
   double total_dist = 0;
   for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
     // total_dist += delta_dist;
-- 
2.43.0


From 20d136902f54bc21dc99b8785187b2a610e87c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 11/38] fix: eigt::matToVec2d is defined where it is declared

The definitions were outside of the namespace: calls of eigt::matToVec2d
did not link.
---
 ndt_gslam/include/ndt_gslam/utils/eigen_tools.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
index f8259ce..1b9e70a 100644
--- a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
@@ -233,8 +233,8 @@ Eigen::Matrix<Out, 3, 3> eigt::vecToMat2d(const Eigen::Matrix<In, 3, 1> &trans)
   return trans_mat;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 2, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
@@ -245,8 +245,8 @@ Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
   return vec;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 3, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
-- 
2.43.0


From e0cfc3876a7b7d821820e8000a5f431b521b2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 12/38] fix: covarInverse tests the eigenvalue on the diagonal

The linear index read off-diagonal zeros, so two of the eigenvalues were
always replaced, whatever the covariance.
---
 ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
index 34f3223..5fd50a0 100644
--- a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
+++ b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
@@ -31,7 +31,7 @@ bool covarInverse(const Eigen::Matrix<Scalar, 3, 3> &cov,
     double max_eval = evals.maxCoeff();
     // test if every eigenval is big enough
     for (int i = 0; i < evals.cols(); ++i) {
-      if (max_eval > evals(i) * eval_factor) {
+      if (max_eval > evals(i, i) * eval_factor) {
         evals(i, i) = max_eval / eval_factor;
         recalc = true;
       }
-- 
2.43.0


From 976fe80736cbc9df7175fa08b4d90fcd393a5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 13/38] fix: split with an empty token terminates

---
 ndt_gslam/include/ndt_gslam/utils/string_tools.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/utils/string_tools.h b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
index bbf24e5..a3acce7 100644
--- a/ndt_gslam/include/ndt_gslam/utils/string_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
@@ -22,6 +22,11 @@ std::vector<std::string> split(const std::string& data,
                                const std::string& token)
 {
   std::vector<std::string> output;
+  // empty token does not separate anything
+  if (token.empty()) {
+    output.push_back(data);
+    return output;
+  }
   size_t pos = std::string::npos;
   std::string temp = data;
   do {
-- 
2.43.0


From fcddeceac9a8b42c7df513dd6a5d6fd357f06bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 14/38] fix: a rejected optimisation step restores the switch
 variable

The vertex kept a second copy of its estimate that g2o's push/pop does
not restore: after pop() the prior edge and the next update used the
value of the rejected step.
---
 .../vertex_switchLinear.h                     |  5 +---
 .../vertex_switchLinear.cpp                   | 23 ++++++++-----------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..7263170 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -32,7 +32,7 @@ public:
 
   double x() const
   {
-    return _x;
+    return _estimate;
   };
 
   //! The gradient at the current estimate is always 1;
@@ -40,9 +40,6 @@ public:
   {
     return 1;
   };
-
-private:
-  double _x;
 };
 
 #endif
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 676c512..b46beaf 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -15,38 +15,33 @@ using namespace std;
 
 bool VertexSwitchLinear::read(std::istream& is)
 {
-  is >> _x;
-  _estimate = _x;
+  is >> _estimate;
 
   return true;
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
 {
-  os << _x;
+  os << _estimate;
   return os.good();
 }
 
 void VertexSwitchLinear::setToOriginImpl()
 {
-  _x = 0;
-  _estimate = _x;
+  _estimate = 0;
 }
 
 void VertexSwitchLinear::setEstimate(const double& et)
 {
-  _x = et;
-  _estimate = _x;
+  _estimate = et;
 }
 
 void VertexSwitchLinear::oplusImpl(const double* update)
 {
-  _x += update[0];
+  _estimate += update[0];
 
-  if (_x < 0)
-    _x = 0;
-  if (_x > 1)
-    _x = 1;
-
-  _estimate = _x;
+  if (_estimate < 0)
+    _estimate = 0;
+  if (_estimate > 1)
+    _estimate = 1;
 }
-- 
2.43.0


From 1e2ba4c6b31e45619eb939902fb0d120986dcd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 15/38] fix: re-initialised se2 mixture forgets its old
 components

Determinants of the previous components stayed in front of the new ones
and decided which component is the most likely one.
---
 .../src/slam_optimizer/max_mixture/edge_se2_mixture.cpp     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..2cd9c54 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
@@ -61,6 +61,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
   this->weights = _weights;
 
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -138,6 +139,9 @@ bool EdgeSE2Mixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
-- 
2.43.0


From 45b793d3d7b9b28b1f1665d662c35668f0209025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 16/38] fix: re-initialised se2_pointxy mixture forgets its old
 components

Determinants of the previous components stayed in front of the new ones
and decided which component is the most likely one.
---
 .../slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..f4f881d 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
@@ -62,6 +62,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -134,6 +135,9 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
-- 
2.43.0


From 9c2c498dd3ec6581e73fb84d67c9f276d9e5afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 17/38] fix: occupancy stays a number when a ray has no length

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..0962c19 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -151,6 +151,11 @@ void NDTCell::updateOccupancy(const Vector &start, const Vector &end,
     return;
   }
 
+  if (start == end) {
+    // ray without any length does not pass through anything
+    return;
+  }
+
   Vector pt_out;
   double lik = calcMaxLikelihoodOnLine(start, end, pt_out);
   // std::cout << "lik: " << lik << " point: " << pt_out.transpose() <<
-- 
2.43.0


From e0d094786e7336443ace4b79d4fd5209c78c0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 18/38] fix: cell keeps its Gaussian when few new points are
 computed

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index 0962c19..87b57d9 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -71,8 +71,9 @@ void NDTCell::computeGaussian()
     return;
   }
   if (points_vec_.size() < 6) {
-    gaussian_ = false;
-    points_ = points_vec_.size();
+    // not enough points for an update, Gaussian known so far stays valid
+    if (!gaussian_)
+      points_ = points_vec_.size();
     return;
   }
 
-- 
2.43.0


From d6d60522a599c2549088bf7c11476a95913f5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 19/38] fix: cell occupancy is set and read in the documented
 scale

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index 28ec657..ad81e95 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -119,8 +119,8 @@ public:
   {
     if (occup_ >= MAX_OCCUPANCY)
       return 100;
-    if (occup_ < MIN_OCCUPANCY)
-      return 0;
+    if (occup_ < 0)
+      return -1;
     return static_cast<int8_t>(std::floor(occup_ * 100));
   }
   /**
@@ -139,7 +139,12 @@ public:
    */
   void setOccupancy(int8_t occup)
   {
-    occup_ = occup;
+    if (occup < 0)
+      occup_ = MIN_OCCUPANCY;
+    else if (occup >= 100)
+      occup_ = MAX_OCCUPANCY;
+    else
+      occup_ = occup / 100.0f;
   }
 
   /**
-- 
2.43.0


From 4a8f3b55ac7cca58347043f8fb857441d4e038db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 20/38] fix: line search trials interpolate correctly in both
 directions

The cubic interpolation took the positive root whichever way the step
goes, so for a trial below the better end it returned the maximiser (or
a division by zero) instead of the minimiser.
---
 ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
index 8179fe0..05ff9b3 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
@@ -154,7 +154,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -176,7 +176,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -197,7 +197,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
     // Calculate the minimizer of the quadratic that interpolates g_l and g_t
@@ -223,7 +223,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_u) / (a_t - a_u) - g_t - g_u;
-    double w = std::sqrt(z * z - g_t * g_u);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_u), a_t - a_u);
     // Equation 2.4.56 [Sun, Yuan 2006]
     return (a_u + (a_t - a_u) * (w - g_u - z) / (g_t - g_u + 2 * w));
   }
-- 
2.43.0


From c3669591c82f1173fdacf92a8418d6e6dbed0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 21/38] fix: merging into a growing NDT grid replaced the
 distributions it held

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 5db1e57..43fffa7 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -503,7 +503,7 @@ void NDTGrid2D<CellType, PointType>::mergeIn(const std::vector<CellType> &cells,
     grid_.enlarge(minx, miny, maxx, maxy);
     for (auto &&cell : cells) {
       if (cell.hasGaussian()) {
-        grid_.addCell(cell.getMean().head(2), cell, false);
+        grid_.addCell(cell.getMean().head(2), cell);
       }
     }
   } else {
-- 
2.43.0


From e079ff100631372441ae521895b05d6df8754efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 22/38] fix: the serialized NDT grid had a wrapped corner and
 no heading

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 43fffa7..6a589ee 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -860,11 +860,12 @@ template <typename CellType, typename PointType>
 NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
 {
   NDTGridMsg msg;
-  Eigen::Vector2d corner_origin(-grid_.left() * cell_size_,
+  Eigen::Vector2d corner_origin(-static_cast<double>(grid_.left()) * cell_size_,
                                 grid_.up() * cell_size_);
   eigt::transform2d_t<double> trans =
       eigt::transBtwFrames(origin_, Eigen::Vector3d(0, 0, 0));
   msg.origin_.head(2) = trans * corner_origin;
+  msg.origin_(2) = origin_(2);
   msg.size_ << grid_.width() * cell_size_, grid_.height() * cell_size_, 0;
   msg.cell_sizes_ << cell_size_, cell_size_, 0;
   for (auto &&cell : grid_.getValidCellsPtr()) {
-- 
2.43.0


From 1efaaa4e6162099da9bf3d3c52693c9ebacfc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 23/38] fix: an NDT grid created at an origin had no cloud of
 means

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 6a589ee..f7f8be9 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -457,6 +457,7 @@ NDTGrid2D<CellType, PointType>::NDTGrid2D(const Eigen::Vector3d &origin,
   , initialized_(false)
   , timestamp_(timestamp)
   , grid_()
+  , means_(new PointCloud())
 {
   grid_.setCellSize(cell_size_);
 }
-- 
2.43.0


From ba1055deadc5c7335ac0333dc0daadcb90603c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 24/38] fix: a cleared or empty NDT grid kept its means and
 crashed the neighbour search

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index f7f8be9..702bb67 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -395,6 +395,7 @@ public:
   {
     grid_.clear();
     initialized_ = false;
+    means_.reset(new PointCloud());
   }
 
   /**
@@ -965,6 +966,9 @@ NDTGrid2D<CellType, PointType>::getKNearestNeighborsKDTree(
     const Eigen::Vector2d &pt, size_t K) const
 {
   CellPtrVector res;
+  // nothing was put into the search tree
+  if (means_->empty())
+    return res;
   res.reserve(K);
   PointType point;
   point.x = pt(0);
-- 
2.43.0


From f6d210571c0fc3b0caaf42efffe546ff59b91843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 25/38] fix: frames of the mapper could not be removed, updated
 or combined

The functions did not compile when used, and combineFrames returned nothing.
---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index 3f909b2..c9ec261 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -8,6 +8,7 @@
 #include <pcl/point_cloud.h>
 #include <ros/ros.h>
 #include <Eigen/Dense>
+#include <algorithm>
 #include <map>
 #include <memory>
 
@@ -110,7 +111,8 @@ private:
   FrameStorage grids_;
   typename Pcl::Ptr means_;
   // return id of frame if found. Otherwise exception
-  typename FrameStorage::iterator getFrameIterator(const NDTGrid2DPtr &frame);
+  typename FrameStorage::iterator
+  getFrameIterator(const NDTGrid2DConstPtr &frame);
   void addToMap(const Grid &frame);
 };
 
@@ -164,7 +166,7 @@ template <typename CellType, typename PointType>
 void NDTMapper<CellType, PointType>::updateFrame(const NDTGrid2DPtr &frame,
                                                  const Pose &pose)
 {
-  getFrameIterator(frame)->setOrigin(pose);
+  (*getFrameIterator(frame))->setOrigin(pose);
 }
 
 template <typename CellType, typename PointType>
@@ -172,11 +174,12 @@ typename NDTMapper<CellType, PointType>::NDTGrid2DPtr
 NDTMapper<CellType, PointType>::combineFrames(const NDTGrid2DPtr &a,
                                               const NDTGrid2DPtr &b)
 {
-  Grid *frame_a = getFrameIterator(a)->get();
-  Grid *frame_b = getFrameIterator(b)->get();
+  NDTGrid2DPtr frame_a = *getFrameIterator(a);
+  NDTGrid2DPtr frame_b = *getFrameIterator(b);
   frame_a->mergeInTraced(*frame_b, true, true);
   frame_a->setTimestamp(frame_b->getTimestamp());
   removeFrame(frame_b);
+  return frame_a;
 }
 
 template <typename CellType, typename PointType>
@@ -219,9 +222,9 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
 
 template <typename CellType, typename PointType>
 typename NDTMapper<CellType, PointType>::FrameStorage::iterator
-NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DPtr &frame)
+NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DConstPtr &frame)
 {
-  auto iter = grids_.find(frame);
+  auto iter = std::find(grids_.begin(), grids_.end(), frame);
   if (iter == grids_.end())
     throw std::invalid_argument("Id of frame doesn't exist");
   return iter;
-- 
2.43.0


From 39f9bf92169f645fe42b3bc2702236af264b4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 26/38] fix: the published occupancy map was upside down

nav_msgs/OccupancyGrid starts at the lower left corner of the map, our grid
with the upper left cell.
---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index c9ec261..482d030 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -212,9 +212,22 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
   occ_msg.info.height = map_.height_;
   occ_msg.info.width = map_.width_;
   occ_msg.info.resolution = map_.resolution_;
-  occ_msg.info.origin = EigenToPoseMsg(map_.origin_);
+  // the message starts with the lower left corner, our map with the center of
+  // the upper left cell
+  Eigen::Vector3d origin = map_.origin_;
+  origin.head(2) +=
+      Eigen::Rotation2Dd(origin(2)) *
+      Eigen::Vector2d(-0.5 * map_.resolution_,
+                      (0.5 - static_cast<double>(map_.height_)) *
+                          map_.resolution_);
+  occ_msg.info.origin = EigenToPoseMsg(origin);
   occ_msg.info.map_load_time = map_recalc_time_;
-  occ_msg.data = map_.cells_;
+  occ_msg.data.reserve(map_.cells_.size());
+  for (size_t row = map_.height_; row > 0; --row) {
+    auto row_start = map_.cells_.begin() + (row - 1) * map_.width_;
+    occ_msg.data.insert(occ_msg.data.end(), row_start,
+                        row_start + map_.width_);
+  }
   return occ_msg;
 }
 
-- 
2.43.0


From 71fc709a80db74db88fbd8aeafbb240c684ecab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 27/38] fix: the loop search started from an uninitialised
 travelled distance and covariance

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 3917b2a..4e164fe 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -22,7 +22,8 @@ struct EdgeCov {
   double distance_;
   size_t hop_;
   EdgeCov()
-    : node_id_(0)
+    : start_id_(0)
+    , node_id_(0)
     , cov_(Covar::Zero())
     , t_(Transform::Identity())
     , distance_(0)
@@ -32,8 +33,10 @@ struct EdgeCov {
   }
   explicit EdgeCov(size_t start_id)
     : start_id_(start_id)
-    , cov_()
+    , node_id_(start_id)
+    , cov_(Covar::Zero())
     , t_(Transform::Identity())
+    , distance_(0)
     , hop_(0)
     , det_cov_(0)
   {
-- 
2.43.0


From 7fe3d4cafd102e27c17b2421f0da6324ee97c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 28/38] fix: the loop search read an empty queue and matched
 nodes reached twice again

---
 .../include/ndt_gslam/slam_optimizer/loop_detector.h      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 4e164fe..96905ed 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -235,8 +235,14 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   }
   size_t depth = 0;
   // repeat while some nodes are unvisited
-  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_) {
+  while (!fringe.empty() && graph_->nodeCount() > nodes_visited &&
+         depth < max_search_depth_) {
     size_t curr_node_id = fringe.top().node_id_;
+    // node could have been reached by other path in the meantime
+    if (graph_->getNode(curr_node_id).isVisited()) {
+      fringe.pop();
+      continue;
+    }
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
     Node &source_n = graph_->getNode(curr_node_id);
-- 
2.43.0


From 71c5721607bbafec70fd2e79db0d92cbcb6fbb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 29/38] fix: odometry of skipped scans was lost

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 9063d5c..666446e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -219,8 +219,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   }
   unused_trans_ = unused_trans_ * motion;
   if (!movedEnough(unused_trans_)) {
-    return eigt::getPoseFromTransform(position_ * motion);
+    return eigt::getPoseFromTransform(position_ * unused_trans_);
   }
+  // whole motion since the last processed scan
+  const Transform odometry = unused_trans_;
   unused_trans_.setIdentity();
   FrameTypePtr local = FrameTypePtr(new FrameType());
   PointCloud::Ptr pcl_out(new PointCloud());
@@ -233,7 +235,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   // inc_matcher_.setInputSource(local);
   inc_matcher_.align(
       *pcl_out,
-      eigt::convertFromTransform(position_cumul_ * motion).cast<float>());
+      eigt::convertFromTransform(position_cumul_ * odometry).cast<float>());
   //
   ROS_DEBUG_STREAM("[SLAM ALGORITHM]: incremental scanamtching converged:"
                    << inc_matcher_.hasConverged());
@@ -285,7 +287,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // scan-matching failed, use odometry
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
-    updateGraph(motion, Covar::Identity() * 100, pcl, update_time);
+    updateGraph(odometry, Covar::Identity() * 100, pcl, update_time);
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From 1e0191be70e7c88ee774f53ed4c51a83b84ea1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 30/38] fix: motion of scans that did not match was counted
 twice

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 666446e..168b0b4 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -287,6 +287,9 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // scan-matching failed, use odometry
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
+    position_cumul_ = position_cumul_ * odometry;
+    last_matcher_pose_ = eigt::getPoseFromTransform(
+        eigt::getTransFromPose(running_window_->getOrigin()) * position_cumul_);
     updateGraph(odometry, Covar::Identity() * 100, pcl, update_time);
   }
   // unused_trans_.setIdentity();
-- 
2.43.0


From ce8b4b7cd8d1c9b89e87702ea42743cfc7fc8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 31/38] fix: scans were traced from the origin of the frame
 instead of the sensor

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 168b0b4..af04524 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -362,10 +362,8 @@ void NdtSlamAlgortihm::updateGraph(const Transform &increase,
     // pose graph
 
     position_ = position_ * increase;
-    PointCloud pcl_out;
-    pcl::transformPointCloud(new_scan, pcl_out,
-                             eigt::convertFromTransform(transform_temp_));
-    frame_temp_->mergeInTraced(pcl_out, frame_temp_->getOrigin(), true);
+    frame_temp_->mergeInTraced(
+        new_scan, eigt::getPoseFromTransform(position_), true);
   }
 
   // std::cout << "position: " <<
-- 
2.43.0


From a5901685d6e8f05946a4db3e9f7d43924a086890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 32/38] fix: transform published before the first scan was
 uninitialised

---
 ndt_gslam/src/graph_slam2d_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index 61fb540..ce35099 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -12,7 +12,7 @@ GraphSlamNode::GraphSlamNode(ros::NodeHandle &n, ros::NodeHandle &n_private,
   , last_pose_(pose_t::Zero())
   , odom_sync_(OdomSyncPolicy(10))
   , pose_sync_(PoseSyncPolicy(10))
-  // , world_tf_trans_()
+  , world_tf_trans_(tf::Transform::getIdentity())
   , seq_(0)
   , is_ready_(false)
 {
-- 
2.43.0


From c2ee285920f99db4b909fa8e6c0e2141a49b43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 33/38] fix: transform published with the first scan ignored
 the odometry

---
 ndt_gslam/src/graph_slam2d_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index ce35099..ff09d91 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -232,6 +232,7 @@ void GraphSlamNode::doAlgorithm(const ros::Time &time_stamp, const pose_t &odom,
     last_odom_ = odom;
     last_pose_ = pose_t::Zero();
     algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    updateTFTrans(odom, last_pose_);
     publishTF(time_stamp);
     return;
   }
-- 
2.43.0


From f85dbf6b8d83f667c5e5f2908f73e65ad3b9406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 34/38] fix: outermost points were left out of the lookup table

---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 9d5a5c9..642ec24 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -382,8 +382,8 @@ void LookUpTable<PointType>::initGridWindowFce(
   // every point is projected to certain cell. If is cell in the grid we set
   // this cell OCCUPIED
   for (size_t i = 0; i < target.size(); ++i) {
-    if (target[i].x < maxx_ && target[i].y < maxy_ && target[i].x > minx_ &&
-        target[i].y > miny_) {
+    if (target[i].x <= maxx_ && target[i].y <= maxy_ && target[i].x >= minx_ &&
+        target[i].y >= miny_) {
       Eigen::Vector2f pt(target[i].x, target[i].y);
       size_t idx = getCellIdx(pt);
       table_[idx] = OCCUPIED_CELL;
@@ -436,7 +436,7 @@ void LookUpTable<PointType>::applyKernel(size_t row, size_t col)
 template <typename PointType>
 float LookUpTable<PointType>::getPtScore(const Eigen::Vector2f &pt) const
 {
-  if (pt(0) < maxx_ && pt(1) < maxy_ && pt(0) > minx_ && pt(1) > miny_) {
+  if (pt(0) <= maxx_ && pt(1) <= maxy_ && pt(0) >= minx_ && pt(1) >= miny_) {
     return table_[getCellIdx(pt)];
   }
   return 0;
-- 
2.43.0


From a1d67fa45c7cd33bb1cd36d0fd9f0a26eb6b81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 35/38] fix: correlative search was off by the border of the
 lookup table

---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 642ec24..5d73b4e 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -331,9 +331,11 @@ LookUpTable<PointType>::toIndexes(const pcl::PointCloud<PointType> &pcl) const
   for (size_t i = 0; i < pcl.points.size(); ++i) {
     IndexPoint pt;
     pt.x_idx_ = static_cast<int>(
-        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_));
+        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_) +
+        border_size_);
     pt.y_idx_ = static_cast<int>(
-        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_));
+        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_) +
+        border_size_);
     indexes.push_back(pt);
   }
   return indexes;
-- 
2.43.0


From b29bc479bf65ed9dd28edf3c4f40c67c6988d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 36/38] fix: score against an empty target was not a number,
 which passed for a match

---
 .../ndt_gslam/registration/correlative_estimation_tools.h    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 5d73b4e..67f992c 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -154,6 +154,7 @@ public:
     , cell_count_row_(0)
     , cell_count_col_(0)
     , border_size_(0)
+    , target_points_(0)
   {
   }
   /**
@@ -282,7 +283,7 @@ LookUpTable<PointType>::getScore(const pcl::PointCloud<PointType> &pcl) const
       ++valid_pts;
     res += temp;
   }
-  if (pcl.size() == 0)
+  if (pcl.size() == 0 || target_points_ == 0)
     return 0;
   return res / (OCCUPIED_CELL * target_points_);
 }
@@ -304,7 +305,7 @@ double LookUpTable<PointType>::getScore(const std::vector<IndexPoint> &pcl) cons
     //  ++valid_pts;
     // res += temp;
   }
-  if (pcl.size() == 0)
+  if (pcl.size() == 0 || target_points_ == 0)
     return 0;
   // ROS_DEBUG_STREAM("valid points: "<<valid_pts <<" score: "<<res <<"
   // (pts*score)/100 "<<res*valid_pts / 100);
-- 
2.43.0


From 90265132f11b34ef59a42b2adc6e250920462f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 37/38] fix: result of the correlative search lacked the
 initial guess

---
 .../include/ndt_gslam/registration/correlative_estimation2d.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
index 4d30c9b..f14b3d0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
@@ -252,7 +252,7 @@ void CorrelativeEstimation<PointSource, PointTarget>::computeTransformation(
 
   // output data
   converged_ = true;
-  final_transformation_ = vecToMat(best_trans);  // * guess;
+  final_transformation_ = vecToMat(best_trans) * guess;
   transformPointCloud(*input_, output, final_transformation_);
 }
 
-- 
2.43.0


From 8323951bc0dc1483766ba905b96ece94ff6e2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 38/38] fix: robust matching could return an uninitialised
 transform

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index 6d189d5..367b0cb 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -331,11 +331,10 @@ void D2DNormalDistributionsTransform2DRobust<
   // standard D2D match try for good guess estimations
   d2d_.align(output, guess);
   double score = proofTransform(d2d_.getFinalTransformation());
-  Eigen::Matrix4f first_trans;
+  const Eigen::Matrix4f first_trans = d2d_.getFinalTransformation();
   // test if first d2d has return bad result
   if (!(d2d_.hasConverged() && score > 0.7)) {
     // bad result -> robust alignment needed
-    first_trans = d2d_.getFinalTransformation();
     corr_est_.align(output, guess);
     if (!corr_est_.hasConverged()) {
       converged_ = false;
-- 
2.43.0

