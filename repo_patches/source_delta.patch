From 2ddecc31f482b40f80cc23607ae4b30aac0bc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 01/37] fix: score NDT cells without measurable spread as 0,
 never above 1

A cell whose points coincide got a NaN or infinite information matrix, and
rounding could leave a negative eigenvalue, so that scores were NaN or
exceeded 1.
---
 src/ndt_model.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..fd04873 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -29,6 +29,7 @@
 #include <Eigen/Core>
 #include <Eigen/Eigen>
 #include <Eigen/Eigenvalues>
+#include <algorithm>
 
 #include <cmath>
 #include <ndt_2d/conversions.hpp>
@@ -85,14 +86,24 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
+
+  // Points without any measurable spread do not have a distribution
+  if (large <= 1e-12 * std::max(1.0, mean.squaredNorm()))
+  {
+    information = Eigen::Matrix2d::Zero();
+    return;
+  }
+
+  // Rounding can leave the smaller value below zero
+  const double negative = std::min(small, 0.0);
   if (small < 0.001 * large)
   {
     // Special case
     double determinant = (0.001 * large) * large;
-    information(0, 0) = covariance(1, 1) / determinant;
+    information(0, 0) = (covariance(1, 1) - negative) / determinant;
     information(0, 1) = -covariance(1, 0) / determinant;
     information(1, 0) = -covariance(0, 1) / determinant;
-    information(1, 1) = covariance(0, 0) / determinant;
+    information(1, 1) = (covariance(0, 0) - negative) / determinant;
   }
   else
   {
@@ -104,7 +115,7 @@ void Cell::compute()
 
 double Cell::score(const Eigen::Vector2d & point)
 {
-  if (n < 5)
+  if (n < 5 || !valid)
   {
     // Need at least five points for our mean/cov to be valid
     return 0.0;
@@ -112,7 +123,7 @@ double Cell::score(const Eigen::Vector2d & point)
 
   const auto q = point - mean;
   const double exponent = -0.5 * q.transpose() * information * q;
-  return std::exp(exponent);
+  return std::exp(std::min(exponent, 0.0));
 }
 
 NDT::NDT(double cell_size, double size_x, double size_y, double origin_x, double origin_y)
-- 
2.43.0


From 6da4b6a366c2aa9f4dd8c40f7f414fa840776c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 02/37] fix: treat far away and non-finite points as outside of
 the NDT grid

The conversion of the cell coordinate to an unsigned integer overflowed, which
let such points land inside of the grid.
---
 src/ndt_model.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index fd04873..cea1c41 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -213,17 +213,16 @@ double NDT::likelihood(const ScanPtr & scan)
 
 int NDT::getIndex(double x, double y)
 {
-  if (x < origin_x_ || y < origin_y_)
+  // Compare before converting: far away or non-finite values do not fit in an integer
+  const double cell_x = (x - origin_x_) / cell_size_;
+  const double cell_y = (y - origin_y_) / cell_size_;
+  if (!(x >= origin_x_ && cell_x < size_x_ && y >= origin_y_ && cell_y < size_y_))
   {
     return -1;
   }
 
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
-  {
-    return -1;
-  }
+  unsigned int grid_x = cell_x;
+  unsigned int grid_y = cell_y;
 
   return (grid_y * size_x_) + grid_x;
 }
-- 
2.43.0


From 78d2e590df158d8d48e8e3ca379103985e047c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 03/37] fix: give the KD tree bins next to zero their full size
 only once

Truncation merged the two bins on either side of zero in each dimension, so
that particles in different bins were counted as one.
---
 include/ndt_2d/kd_tree.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/kd_tree.hpp b/include/ndt_2d/kd_tree.hpp
index 0012054..b9f0f34 100644
--- a/include/ndt_2d/kd_tree.hpp
+++ b/include/ndt_2d/kd_tree.hpp
@@ -30,6 +30,7 @@
 #define NDT_2D__KD_TREE_HPP_
 
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <utility>
@@ -97,9 +98,9 @@ public:
   void insert(Eigen::Vector3d & cont_key, T & value)
   {
     int key[3];
-    key[0] = static_cast<int>(cont_key(0) / cell_size_(0));
-    key[1] = static_cast<int>(cont_key(1) / cell_size_(1));
-    key[2] = static_cast<int>(cont_key(2) / cell_size_(2));
+    key[0] = static_cast<int>(std::floor(cont_key(0) / cell_size_(0)));
+    key[1] = static_cast<int>(std::floor(cont_key(1) / cell_size_(1)));
+    key[2] = static_cast<int>(std::floor(cont_key(2) / cell_size_(2)));
 
     if (nodes_.empty())
     {
-- 
2.43.0


From 6ac584d4cfee6bd11e8d52d8e022ad660950f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 04/37] fix: end each occupancy grid beam in the cell of its
 point

The second test of the Bresenham step used the error that the first one had
already changed, so that many beams were marked as ending one cell away.
---
 src/occupancy_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..7dd6519 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -108,7 +108,9 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           break;
         }
         ++empty[index];
-        if (2 * error >= dy)
+        // Both axes step on the same error
+        const int error2 = 2 * error;
+        if (error2 >= dy)
         {
           if (x == end_x)
           {
@@ -118,7 +120,7 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           error = error + dy;
           x += sx;
         }
-        if (2 * error <= dx)
+        if (error2 <= dx)
         {
           if (y == end_y)
           {
-- 
2.43.0


From b7a978d28fa74208727cc0609413a39d6067c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 05/37] fix: recompute the occupancy grid bounds from the scans
 being rendered

The bounds were only extended by the points of new scans. Once scans were
moved by the optimization, the graph was replaced, or a scan was taken
outside of the bounds of the points, cells outside of the grid were written.
---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..eab0c58 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds of the scans being rendered
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index 7dd6519..c08bac6 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid, scans may have been moved or replaced
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -155,17 +151,22 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  min_x_ = max_x_ = min_y_ = max_y_ = 0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  // Iterate through scans
+  for (size_t i = 0; i < scans.size(); ++i)
   {
     double x = scans[i]->getPose().x;
     double y = scans[i]->getPose().y;
     double cos_th = cos(scans[i]->getPose().theta);
     double sin_th = sin(scans[i]->getPose().theta);
 
+    // Beams start at the pose of the scan
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
+
     // Iterate through points in the scan
     for (auto & point : scans[i]->getPoints())
     {
-- 
2.43.0


From bebd8030f50cb9bc29233364da8d7ab6a064736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 06/37] fix: recompute the particle heading variance instead of
 accumulating it

---
 src/particle_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..e30be3f 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -210,6 +210,7 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  cov_(2, 2) = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-- 
2.43.0


From 3490c592cf4e5ca5e67a5a30bc7091b2c8d40dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 07/37] fix: keep particle weights finite when no particle
 matches the scan

---
 src/particle_filter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index e30be3f..700c4e8 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -168,6 +168,12 @@ void ParticleFilter::updateStatistics()
   {
     sum_weight += w;
   }
+  if (sum_weight == 0.0)
+  {
+    // No particle matches the measurement - it tells nothing about where we are
+    weights_.assign(weights_.size(), 1.0);
+    sum_weight = weights_.size();
+  }
   for (auto & w : weights_)
   {
     w /= sum_weight;
-- 
2.43.0


From 4dc55233ec7474584984a2397ac322cff1305402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 08/37] fix: give resampled particles equal weights

---
 src/particle_filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index 700c4e8..d819c87 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -111,7 +111,8 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
     size_t p = d(gen_);
     kd_tree_.insert(particles_[p], weights_[p]);
     resampled.push_back(particles_[p]);
-    resampled_weights.push_back(weights_[p]);
+    // Having been drawn according to the weights, all of these are equally likely
+    resampled_weights.push_back(1.0);
 
     // Recompute crazy equation
     size_t k = kd_tree_.getLeafCount();
-- 
2.43.0


From 3e2623b046db0d170e56513f8696a3ffd2dc527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 09/37] fix: size the NDT map by its scans only, also left or
 below of the origin

---
 src/scan_matcher_ndt.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..0d1edac 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,11 +49,18 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  // Without any scans there is nothing to match against
+  if (begin == end)
+  {
+    ndt_.reset();
+    return;
+  }
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From f37e8e82293fb9f59e3a177eb689c380c163ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 10/37] fix: subtract the mean in the scan match covariance

---
 src/scan_matcher_ndt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 0d1edac..47a410f 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -150,7 +150,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From c4110efc11e1d2dd1d609446280da13380807e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 11/37] fix: finite, invertible scan match results without
 points or overlap

---
 src/scan_matcher_ndt.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 47a410f..282e981 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -83,8 +83,19 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
                                  Eigen::Matrix3d & covariance) const
 {
-  // Scans must be added first
-  if (!ndt_) return 0.0;
+  // Until a better candidate is found, there is no correction, known to within the search window
+  const Eigen::Vector3d window(linear_size_ * linear_size_ / 3.0,
+                               linear_size_ * linear_size_ / 3.0,
+                               angular_size_ * angular_size_ / 3.0);
+  // Candidates are spaced apart, no match can be more certain than that
+  const Eigen::Vector3d spacing(linear_res_ * linear_res_ / 12.0,
+                                linear_res_ * linear_res_ / 12.0,
+                                angular_res_ * angular_res_ / 12.0);
+  pose = Pose2d();
+  covariance = (window + spacing).asDiagonal();
+
+  // Scans must be added first, and there must be something to match
+  if (!ndt_ || scan->getPoints().empty()) return 0.0;
 
   // Search NDT for best correlation for new scan
   double best_score = 0;
@@ -149,8 +160,12 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     }
   }
 
-  // Compute covariance
-  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
+  // Compute covariance, unless no candidate overlaps the map (by more than rounding errors)
+  if (s < -1e-100)
+  {
+    covariance = k / s - (u / s) * (u / s).transpose();
+    covariance.diagonal() += spacing;
+  }
 
   return best_score / scan_points_to_use;
 }
@@ -162,8 +177,8 @@ double ScanMatcherNDT::scoreScan(const ScanPtr & scan) const
 
 double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose2d & pose) const
 {
-  // Need a valid NDT
-  if (!ndt_) return 0.0;
+  // Need a valid NDT, and something to score
+  if (!ndt_ || points.empty()) return 0.0;
 
   // Transform points to the pose
   const Eigen::Isometry3d t = toEigen(pose);
-- 
2.43.0


From 226dc0204b7bebd39a3785c0eca95a61aa6ca590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 12/37] fix: search nearby scans within the distance, not its
 square root

---
 src/graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..6e2fbdb 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -173,12 +173,12 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   kd_tree_t tree(2 /* dimension */, adapter, 5 /* leaf size */);
   tree.buildIndex();
 
-  // Search KD-tree for neighbors
+  // Search KD-tree for neighbors - L2 adaptor works with squared distances
   const Pose2d & pose = use_barycenter_ ? scan->getBarycenterPose() : scan->getPose();
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From ab64820e384ee9fcca149f5a383dcf54f597879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 13/37] fix: weight pose graph residuals with the information
 matrix

---
 src/ceres_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..7f5ecbc 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -129,7 +129,8 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  // The squared residual is weighted by (sqrt_information^T * sqrt_information)
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From 704d3978ae1665a3aa12478d19cd4282283e9144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 14/37] fix: optimize graphs whose first scan has no constraint

---
 src/ceres_solver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 7f5ecbc..ff87fb4 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -85,11 +85,14 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
   }
   num_constraints_ = n;
 
-  // Make first node fixed
+  // Make first node fixed, it is only part of the problem when there is a constraint on it
   auto first_node_ = nodes_.find(scans[0]->getId());
-  problem_->SetParameterBlockConstant(&first_node_->second(0));
-  problem_->SetParameterBlockConstant(&first_node_->second(1));
-  problem_->SetParameterBlockConstant(&first_node_->second(2));
+  if (problem_->HasParameterBlock(&first_node_->second(0)))
+  {
+    problem_->SetParameterBlockConstant(&first_node_->second(0));
+    problem_->SetParameterBlockConstant(&first_node_->second(1));
+    problem_->SetParameterBlockConstant(&first_node_->second(2));
+  }
 
   // Run the solver
   ceres::Solver::Summary summary;
-- 
2.43.0


From 5ac163c856be7d983450ea7e21a3a02cb00790bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 15/37] fix: match against rolling_depth scans, not always ten

---
 src/ndt_mapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..905599b 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -501,14 +501,15 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ?
+        0 : graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
       local_scan_matcher_->reset();
       local_scan_matcher_->addScans(rolling, graph_->scans.end());
 
-      // Local consistency - match new scan against last 10 scans
+      // Local consistency - match new scan against rolling window
       Pose2d correction;
       Eigen::Matrix3d covariance;
       double uncorrected_score = local_scan_matcher_->scoreScan(scan);
-- 
2.43.0


From afdbbbf55e363cb8c16cc1d096f990758e27470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 16/37] fix: make flags shared between mapper threads atomic

---
 include/ndt_2d/ndt_mapper.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9fe6ae4..8c01cc4 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -32,6 +32,7 @@
 #include <tf2_ros/buffer.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_ros/transform_broadcaster.h>
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -75,7 +76,7 @@ protected:
 
   // Thread for publishing map and transforms
   void mapPublishThread();
-  bool map_update_available_;
+  std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
   // Mapping parameters
@@ -104,7 +105,8 @@ protected:
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
   std::string scan_matcher_type_;
-  double typical_matcher_response_;
+  // Updated by laser callback, used by loop closure thread
+  std::atomic<double> typical_matcher_response_;
 
   // ROS 2 interfaces
   rclcpp::Logger logger_;
@@ -121,7 +123,7 @@ protected:
   // Map data
   GraphPtr graph_;
   std::mutex graph_mutex_;
-  bool enable_mapping_;
+  std::atomic<bool> enable_mapping_;
   std::mutex prev_pose_mutex_;
   // The previous odom_frame_->robot_frame_
   Pose2d prev_odom_pose_;
-- 
2.43.0


From 609f38390ac645dd9f2128f3aea32ce7ece40b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 17/37] fix: lock previous poses when setting the initial pose

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 905599b..ed7064b 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -255,7 +255,8 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     graph_->constraints.push_back(constraint);
   }
 
-  // Localize robot
+  // Localize robot (under lock)
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
-- 
2.43.0


From 92bbcb83b4da51e4aba58c9f9d059c7e752f78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 18/37] fix: lock the graph when checking for scans to publish
 TF

---
 src/ndt_mapper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index ed7064b..b8a9cc6 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -716,7 +716,12 @@ void Mapper::mapPublishThread()
     }
 
     // Publish TF
-    if (!graph_->scans.empty())
+    bool have_scans;
+    {
+      std::lock_guard<std::mutex> lock(graph_mutex_);
+      have_scans = !graph_->scans.empty();
+    }
+    if (have_scans)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From 1a1869e5171d8042bd13fbdc0d8a8464b0fa84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 19/37] fix: lock the graph when loop closure corrects a scan
 pose

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index b8a9cc6..d26ad3c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -650,7 +650,8 @@ void Mapper::loopClosureThread()
             RCLCPP_INFO(logger_, "***Adding loop closure from %lu to %lu (score %f)",
                                  candidate->getId(), scan->getId(), score);
 
-            // Correct pose
+            // Correct pose (lock before touching the graph again)
+            lock.lock();
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -659,7 +660,6 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
             graph_->constraints.push_back(constraint);
             map_update_available_ = true;
           }
-- 
2.43.0


From 05a4d57f324b87d0c519c42c77d7b28f608bb27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 20/37] fix: add a scan and its odometry constraint to the
 graph atomically

---
 src/ndt_mapper.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index d26ad3c..fa7e6f3 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -498,6 +498,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Adding scan %lu to map", graph_->scans.size());
     RCLCPP_INFO(logger_, "Odom pose: %f, %f, %f", odom_pose.x, odom_pose.y, odom_pose.theta);
 
+    // Lock graph until the scan and its constraint are added, both belong together and
+    // the poses we match against must not be optimized in between
+    std::unique_lock<std::mutex> graph_lock(graph_mutex_);
+
     double matched_score = 0.0;
     if (!graph_->scans.empty())
     {
@@ -527,7 +531,6 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
       // Add odom constraint to the graph
       ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
-      std::lock_guard<std::mutex> lock(graph_mutex_);
       graph_->constraints.push_back(constraint);
     }
 
@@ -535,15 +538,14 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
     // Append new scan to our graph
-    {
-      std::lock_guard<std::mutex> lock(graph_mutex_);
-      graph_->scans.push_back(scan);
-    }
+    graph_->scans.push_back(scan);
+    const Pose2d corrected_pose = scan->getPose();
+    graph_lock.unlock();
 
     // Update previous pose tracking (under lock)
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
     prev_odom_pose_ = odom_pose;
-    prev_robot_pose_ = scan->getPose();
+    prev_robot_pose_ = corrected_pose;
     map_update_available_ = true;
   }
   else
-- 
2.43.0


From 0f45a201422a59762dc341da603baf5a200502a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 21/37] fix: do not share the global scan matcher between
 threads without a lock

---
 include/ndt_2d/ndt_mapper.hpp |  2 ++
 src/ndt_mapper.cpp            | 21 +++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 8c01cc4..dbbdf78 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -101,6 +101,8 @@ protected:
   // Scan matchers
   // Used for loop closure when mapping, and localization
   ScanMatcherPtr global_scan_matcher_;
+  // Lock before accessing global_scan_matcher_, and before locking graph_mutex_
+  std::mutex global_scan_matcher_mutex_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index fa7e6f3..0b5dfbb 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -294,12 +294,13 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     laser_frame_ = msg->header.frame_id;
 
     // range_max_ must be set before building the global scan matcher NDT
+    std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
     if (use_particle_filter_ || !enable_mapping_)
     {
       // When localizing, global scan matcher uses ALL scans
       global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
       global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-      // Note: no need to lock graph here, since this thread is the only one that adds scans
+      std::lock_guard<std::mutex> lock(graph_mutex_);
       global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
     }
     else
@@ -472,7 +473,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
                          robot_delta(1), robot_delta(2));
 
     filter_->update(robot_delta(0), robot_delta(1), robot_delta(2));
-    filter_->measure(global_scan_matcher_, scan);
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+      filter_->measure(global_scan_matcher_, scan);
+    }
     filter_->resample(kld_err_, kld_z_);
 
     auto mean = filter_->getMean();
@@ -551,6 +555,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   else
   {
     // Not using particle filter, nor mapping, just track motion of robot
+    std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
     Pose2d correction;
     Eigen::Matrix3d covariance;
     double uncorrected_score = global_scan_matcher_->scoreScan(scan);
@@ -589,6 +594,15 @@ void Mapper::loopClosureThread()
       num_scans = graph_->scans.size();
     }
 
+    // Can't do a global search until the first scan has set up the scan matcher
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+      if (!global_scan_matcher_)
+      {
+        continue;
+      }
+    }
+
     // Can't do a global search until we have at least enough scans
     if (num_scans <= rolling_depth_)
     {
@@ -623,6 +637,9 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
+          // Lock scan matcher until we are done with this candidate
+          std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph_->scans[i];
-- 
2.43.0


From 58587fbe8507664fe4ca5f73f1519a6da3eddba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 22/37] fix: mapping is disabled when using the particle filter

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 0b5dfbb..4bf9f27 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -187,7 +187,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
 
 void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::ConstSharedPtr& msg)
 {
-  if (enable_mapping_ && prev_odom_pose_is_initialized_)
+  if (enable_mapping_ && !use_particle_filter_ && prev_odom_pose_is_initialized_)
   {
     RCLCPP_WARN(logger_, "Ignoring initial pose, already mapping");
     return;
@@ -582,7 +582,7 @@ void Mapper::loopClosureThread()
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
     // Only do loop closure if we are mapping
-    if (!enable_mapping_)
+    if (!enable_mapping_ || use_particle_filter_)
     {
       continue;
     }
-- 
2.43.0


From ebeb59ac9ff099c57c7fd7dd733fd9056c83680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 23/37] fix: include the scan following a loop closure
 candidate

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 4bf9f27..c130f4c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -647,9 +647,9 @@ void Mapper::loopClosureThread()
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
-          size_t end_idx = (i < rolling) ? i + 1 : i;
+          size_t end_idx = std::min(i + 1, graph_->scans.size() - 1);
           auto begin = graph_->scans.begin() + begin_idx;
-          auto end = graph_->scans.begin() + end_idx;
+          auto end = graph_->scans.begin() + end_idx + 1;
 
           // Build NDT of candidate region
           global_scan_matcher_->reset();
-- 
2.43.0


From 420f202232717897fa0f8f035ef6e7a85287ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 24/37] fix: check no more than global_search_limit candidates,
 also when it is zero

---
 src/ndt_mapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index c130f4c..82bb8e4 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -637,6 +637,8 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
+          if (num_scans_to_check == 0) break;
+
           // Lock scan matcher until we are done with this candidate
           std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
 
@@ -688,7 +690,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
           }
 
-          if (--num_scans_to_check == 0) break;
+          --num_scans_to_check;
         }
       }
     }
-- 
2.43.0


From c0d44a5ed268b3da23a947621e5a50954f5fb809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 25/37] fix: rebuild the localization map when the map or the
 mode changes at runtime

---
 include/ndt_2d/ndt_mapper.hpp |  2 ++
 src/ndt_mapper.cpp            | 34 ++++++++++++++++++++--------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index dbbdf78..ebe056e 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -103,6 +103,8 @@ protected:
   ScanMatcherPtr global_scan_matcher_;
   // Lock before accessing global_scan_matcher_, and before locking graph_mutex_
   std::mutex global_scan_matcher_mutex_;
+  // Does the global scan matcher contain ALL scans of the current graph
+  bool global_scan_matcher_is_built_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 82bb8e4..e0042c8 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -51,6 +51,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   map_update_available_(false),
   laser_inverted_(false),
   optimization_last_(0),
+  global_scan_matcher_is_built_(false),
   scan_matcher_loader_("ndt_2d", "ndt_2d::ScanMatcher"),
   typical_matcher_response_(-0.5),
   logger_(rclcpp::get_logger("ndt_2d_mapper")),
@@ -167,6 +168,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     enable_mapping_ = false;
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
+    // Loop closure has been using the global scan matcher
+    global_scan_matcher_is_built_ = false;
   }
 
   if (request->action & srv::Configure::Request::LOAD_FROM_FILE)
@@ -176,6 +179,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
+    global_scan_matcher_is_built_ = false;
   }
   else if (request->action & srv::Configure::Request::SAVE_TO_FILE)
   {
@@ -295,25 +299,24 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
     // range_max_ must be set before building the global scan matcher NDT
     std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
-    if (use_particle_filter_ || !enable_mapping_)
-    {
-      // When localizing, global scan matcher uses ALL scans
-      global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
-      global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-      std::lock_guard<std::mutex> lock(graph_mutex_);
-      global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
-    }
-    else
-    {
-      // When map building, global scan matcher is just for loop closures
-      global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
-      global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-    }
+    // When map building, global scan matcher is just for loop closures
+    global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
+    global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
 
     local_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
     local_scan_matcher_->initialize("local_scan_matcher", this, range_max_);
   }
 
+  // When localizing, global scan matcher uses ALL scans - map and mode can change at runtime
+  if ((use_particle_filter_ || !enable_mapping_) && !global_scan_matcher_is_built_)
+  {
+    std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+    std::lock_guard<std::mutex> lock(graph_mutex_);
+    global_scan_matcher_->reset();
+    global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+    global_scan_matcher_is_built_ = true;
+  }
+
   // If we have loaded a previous map, need to localize first
   if (!prev_odom_pose_is_initialized_)
   {
@@ -642,6 +645,9 @@ void Mapper::loopClosureThread()
           // Lock scan matcher until we are done with this candidate
           std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
 
+          // Scan matcher is used for localization once mapping is disabled
+          if (!enable_mapping_) break;
+
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph_->scans[i];
-- 
2.43.0


From be8a3da1438b4cef5bafb42516ac39673cd29666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:17 +0000
Subject: [PATCH 26/37] fix: restart loop closure and optimization when another
 graph is loaded

---
 include/ndt_2d/ndt_mapper.hpp |  2 ++
 src/ndt_mapper.cpp            | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index ebe056e..9af0ea2 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -72,6 +72,8 @@ protected:
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
+  // The graph that global_scans_processed_, optimization_last_ and solver_ refer to
+  GraphPtr global_graph_;
   std::unique_ptr<std::thread> loop_closure_thread_;
 
   // Thread for publishing map and transforms
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index e0042c8..8b65e3c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -594,6 +594,14 @@ void Mapper::loopClosureThread()
     size_t num_scans;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      if (graph_ != global_graph_)
+      {
+        // Another graph was loaded, nothing we know about the previous one applies
+        global_graph_ = graph_;
+        global_scans_processed_ = 0;
+        optimization_last_ = 0;
+        solver_ = std::make_shared<CeresSolver>();
+      }
       num_scans = graph_->scans.size();
     }
 
@@ -619,6 +627,7 @@ void Mapper::loopClosureThread()
     }
 
     bool new_matches = false;
+    bool aborted = false;
     if (num_scans > global_scans_processed_)
     {
       // We have new scans to process
@@ -632,6 +641,8 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
+          // Our indices are not valid in another graph
+          if (graph_ != global_graph_) break;
           scan = graph_->scans[global_scans_processed_];
           scans = graph_->findNearest(scan, global_search_size_, rolling);
         }
@@ -646,10 +657,13 @@ void Mapper::loopClosureThread()
           std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
 
           // Scan matcher is used for localization once mapping is disabled
-          if (!enable_mapping_) break;
+          aborted = !enable_mapping_;
+          if (aborted) break;
 
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
+          aborted = (graph_ != global_graph_);
+          if (aborted) break;
           const auto candidate = graph_->scans[i];
           if (candidate->getPoints().empty()) continue;
 
@@ -679,6 +693,8 @@ void Mapper::loopClosureThread()
 
             // Correct pose (lock before touching the graph again)
             lock.lock();
+            aborted = (graph_ != global_graph_);
+            if (aborted) break;
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -698,6 +714,7 @@ void Mapper::loopClosureThread()
 
           --num_scans_to_check;
         }
+        if (aborted) break;
       }
     }
 
@@ -706,6 +723,7 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      if (graph_ != global_graph_) continue;
       solver_->optimize(graph_->constraints, graph_->scans);
       optimization_last_ = graph_->scans.size();
       map_update_available_ = true;
-- 
2.43.0


From 0860b2a3cf7f3d8fdb2230c1bb4a1c88117c1323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:23 +0000
Subject: [PATCH 27/37] fix: keep running when a map can not be loaded or saved

---
 src/ndt_mapper.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 8b65e3c..f333bfd 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -176,7 +176,15 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Loading map from %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+    try
+    {
+      graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+    }
+    catch (const std::exception& ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not load map: %s", ex.what());
+      return;
+    }
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
     global_scan_matcher_is_built_ = false;
@@ -185,7 +193,14 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Saving map to %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_->save(request->filename);
+    try
+    {
+      graph_->save(request->filename);
+    }
+    catch (const std::exception& ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not save map: %s", ex.what());
+    }
   }
 }
 
-- 
2.43.0


From 167a4232dc4eec87cb2bce922ee218b7b4a95bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:31 +0000
Subject: [PATCH 28/37] fix: accept initial poses without covariance when
 connecting to the graph

---
 src/ndt_mapper.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index f333bfd..ef733bf 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -267,9 +267,10 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
 
     // Add a constraint
     Eigen::Matrix3d covariance = Eigen::Matrix3d::Zero();
-    covariance(0, 0) = msg->pose.covariance[0];
-    covariance(1, 1) = msg->pose.covariance[7];
-    covariance(2, 2) = msg->pose.covariance[35];
+    // Covariance might not be filled in, but must be invertible
+    covariance(0, 0) = std::max(1e-6, msg->pose.covariance[0]);
+    covariance(1, 1) = std::max(1e-6, msg->pose.covariance[7]);
+    covariance(2, 2) = std::max(1e-6, msg->pose.covariance[35]);
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
   }
-- 
2.43.0


From 1b9b829ddc6ac7ce2c7dc43b95df5cebcf351c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 29/37] fix: discard laser readings below the minimum range,
 including -inf

---
 src/ndt_mapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index ef733bf..ad683f1 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -430,8 +430,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size() - 1; i > 0; --i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs and readings below min range or beyond max range
+      if (!(msg->ranges[i] >= msg->range_min && msg->ranges[i] <= range_max_)) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -453,8 +453,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs and readings below min range or beyond max range
+      if (!(msg->ranges[i] >= msg->range_min && msg->ranges[i] <= range_max_)) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0


From 4c43ed5ecc859c1b62a9e61095ec6ba6faf267ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 30/37] fix: treat a laser as inverted only when it is upside
 down

---
 src/ndt_mapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index ad683f1..5deecff 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -296,9 +296,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       // Determine pose of laser relative to base
       auto t = tf2_buffer_->lookupTransform(robot_frame_, msg->header.frame_id, tf2::TimePointZero);
       laser_transform_ = fromMsg(t);
-      if (std::fabs(t.transform.rotation.x) > 0.02 ||
-          std::fabs(t.transform.rotation.y) > 0.02)
+      const auto & q = t.transform.rotation;
+      if (q.x * q.x + q.y * q.y > 0.5)
       {
+        // Z axis of the laser is pointing down
         RCLCPP_WARN(logger_, "Treating laser as inverted");
         laser_inverted_ = true;
       }
-- 
2.43.0


From 58d05b4011fd49c416ea5c7ef9c27002c6291c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 31/37] fix: readings of an inverted laser are in time order,
 and do not skip the first

---
 src/ndt_mapper.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 5deecff..a839119 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -429,7 +429,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
       // Filter out NANs and readings below min range or beyond max range
       if (!(msg->ranges[i] >= msg->range_min && msg->ranges[i] <= range_max_)) continue;
@@ -441,11 +441,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       Point point(cos_lt * lp.x - sin_lt * lp.y + laser_transform_.x,
                   sin_lt * lp.x + cos_lt * lp.y + laser_transform_.y);
       // Apply laser movement
-      double cos_tt = cos(translation.theta - (trans_per_meas.theta * i));
-      double sin_tt = sin(translation.theta - (trans_per_meas.theta * i));
-      Point translated(
-        cos_tt * point.x - sin_tt * point.y +(translation.x - (trans_per_meas.x * i)),
-        sin_tt * point.x + cos_tt * point.y + (translation.y - (trans_per_meas.y * i)));
+      double cos_tt = cos(trans_per_meas.theta * i);
+      double sin_tt = sin(trans_per_meas.theta * i);
+      Point translated(cos_tt * point.x - sin_tt * point.y + (trans_per_meas.x * i),
+                       sin_tt * point.x + cos_tt * point.y + (trans_per_meas.y * i));
       // Add point to scan
       points.push_back(translated);
     }
-- 
2.43.0


From 38efe9488f381ecc20f46556ae4c43c5bc6aa741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 32/37] fix: apply laser movement in the robot frame

---
 src/ndt_mapper.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index a839119..d9f7297 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -404,17 +404,21 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     return;
   }
 
-  // Determine movement between start and end of laser scan
-  Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
-
-  // Now scale it by number of measurements
+  // Determine movement between start and end of laser scan, in robot frame at start of scan
+  Pose2d end_odom_pose = fromMsg(end_odom_pose_tf);
+  double end_dx = end_odom_pose.x - odom_pose.x;
+  double end_dy = end_odom_pose.y - odom_pose.y;
+  Pose2d translation;
+  translation.x = cos(odom_pose.theta) * end_dx + sin(odom_pose.theta) * end_dy;
+  translation.y = cos(odom_pose.theta) * end_dy - sin(odom_pose.theta) * end_dx;
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
+
+  // Now scale it by number of intervals between measurements
+  double intervals = (msg->ranges.size() > 1) ? msg->ranges.size() - 1 : 1;
   Pose2d trans_per_meas;
-  trans_per_meas.x = translation.x / msg->ranges.size();
-  trans_per_meas.y = translation.y / msg->ranges.size();
-  trans_per_meas.theta = translation.theta / msg->ranges.size();
+  trans_per_meas.x = translation.x / intervals;
+  trans_per_meas.y = translation.y / intervals;
+  trans_per_meas.theta = translation.theta / intervals;
 
   // Need to convert the scan into an ndt_2d style
   ScanPtr scan = std::make_shared<Scan>(graph_->scans.size());
-- 
2.43.0


From f04b388f5177f6947d29176f397738c9fa806c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:05 +0000
Subject: [PATCH 33/37] fix: ignore laser scans without measurements

---
 src/ndt_mapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index d9f7297..663d5a3 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -287,6 +287,12 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
 
 void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg)
 {
+  if (msg->ranges.empty())
+  {
+    RCLCPP_WARN(logger_, "Ignoring laser scan without measurements");
+    return;
+  }
+
   // Save data from laser scan message
   if (range_max_ < 0) range_max_ = msg->range_max;
   if (laser_frame_ == "")
-- 
2.43.0


From 3c91565ca8f06adde7b96acad20a1d0b40cca7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 34/37] fix: stop threads when the component is unloaded

---
 include/ndt_2d/ndt_mapper.hpp | 3 +++
 src/ndt_mapper.cpp            | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9af0ea2..b3b384b 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -69,6 +69,9 @@ protected:
   /** @brief ROS callback for new laser scan */
   void laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg);
 
+  // Threads are running until this is set
+  std::atomic<bool> shutdown_;
+
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 663d5a3..092a8d0 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -47,6 +47,7 @@ namespace ndt_2d
 
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
+  shutdown_(false),
   global_scans_processed_(0),
   map_update_available_(false),
   laser_inverted_(false),
@@ -145,7 +146,8 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
 
 Mapper::~Mapper()
 {
-  // Shut down threads
+  // Shut down threads, also when only this component is unloaded
+  shutdown_ = true;
   map_publish_thread_->join();
   loop_closure_thread_->join();
   // Clean these up to avoid pluginlib errors
@@ -606,7 +608,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
 void Mapper::loopClosureThread()
 {
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
@@ -759,7 +761,7 @@ void Mapper::loopClosureThread()
 
 void Mapper::mapPublishThread()
 {
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     if (map_update_available_)
     {
-- 
2.43.0


From 86a198bb55e6e6aae5b9e8a1101d149d01188cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 35/37] fix: publish map to odom only with the poses of the
 first scan

The first scan was visible in the graph before the previous robot and odometry
poses were set, so the publish thread could send an identity transform.
---
 src/ndt_mapper.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 092a8d0..357aa53 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -535,7 +535,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
     // Lock graph until the scan and its constraint are added, both belong together and
     // the poses we match against must not be optimized in between
-    std::unique_lock<std::mutex> graph_lock(graph_mutex_);
+    std::lock_guard<std::mutex> graph_lock(graph_mutex_);
 
     double matched_score = 0.0;
     if (!graph_->scans.empty())
@@ -574,13 +574,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
     // Append new scan to our graph
     graph_->scans.push_back(scan);
-    const Pose2d corrected_pose = scan->getPose();
-    graph_lock.unlock();
 
-    // Update previous pose tracking (under lock)
+    // Update previous pose tracking (under lock), before anyone sees there is a map
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
     prev_odom_pose_ = odom_pose;
-    prev_robot_pose_ = corrected_pose;
+    prev_robot_pose_ = scan->getPose();
     map_update_available_ = true;
   }
   else
-- 
2.43.0


From ead8fdb3c3058f5807406336761cd32c89aa5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 36/37] fix: publish the map when an initial pose was added to
 it

While mapping, an initial pose adds a scan and a constraint to the graph, but
neither was published before the next change of the map.
---
 src/ndt_mapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 357aa53..a89301f 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -275,6 +275,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     covariance(2, 2) = std::max(1e-6, msg->pose.covariance[35]);
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
+    map_update_available_ = true;
   }
 
   // Localize robot (under lock)
-- 
2.43.0


From f8ad25c816f288e01de5b63ab868827c354ee827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 37/37] fix: Loop closure finishes a scan it has begun when
 mapping is disabled

When mapping was disabled and enabled again while candidates of a scan were being
matched, the scan was considered again from its first candidate, and loop closures
already found were added a second time.
---
 src/ndt_mapper.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index a89301f..d8b1f77 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -674,19 +674,19 @@ void Mapper::loopClosureThread()
           scans = graph_->findNearest(scan, global_search_size_, rolling);
         }
 
+        // Lock scan matcher until we are done with this scan
+        std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+
+        // Scan matcher is used for localization once mapping is disabled
+        aborted = !enable_mapping_;
+        if (aborted) break;
+
         // Now do global loop closure scan matching
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
           if (num_scans_to_check == 0) break;
 
-          // Lock scan matcher until we are done with this candidate
-          std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
-
-          // Scan matcher is used for localization once mapping is disabled
-          aborted = !enable_mapping_;
-          if (aborted) break;
-
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           aborted = (graph_ != global_graph_);
-- 
2.43.0

