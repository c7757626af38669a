From 5f6fafc141ac53ffdf1a12df3e5e07dee628f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 01/34] fix: Graph::findNearest searches within dist, not
 sqrt(dist)

---
 src/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..73001da 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -178,7 +178,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  // The L2 metric of nanoflann works on squared distances
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From aa0df09ad44df42e542456083bbeec0199e22b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 02/34] fix: occupancy grid covers every pose and point of the
 scans it renders

Bounds were only extended by the points of newly added scans: rays that started
outside, and scans moved by the optimizer or by loading another map, were
rendered outside of the grid buffer.
---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..83e4c7d 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds of the scans rendered last
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..6021fe6 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -153,14 +149,18 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  // Poses may have been optimized, or a different map loaded, so always start over
+  min_x_ = max_x_ = min_y_ = max_y_ = 0.0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  for (size_t i = 0; i < scans.size(); ++i)
   {
     double x = scans[i]->getPose().x;
     double y = scans[i]->getPose().y;
+    // Rays start at the pose of the scan, so it has to be within the map
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
     double cos_th = cos(scans[i]->getPose().theta);
     double sin_th = sin(scans[i]->getPose().theta);
 
-- 
2.43.0


From fec6c6df3839a041cadae163942d3e6e0e6deaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 03/34] fix: particle filter heading variance no longer
 accumulates over updates

---
 src/particle_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..e30be3f 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -210,6 +210,7 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  cov_(2, 2) = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-- 
2.43.0


From acad18619cfb19046abb90b09892c8852edbf486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 04/34] fix: particle filter survives a measurement that no
 particle explains

All weights were divided by their zero sum, so that the weights, the mean and
from then on the robot pose became NaN.
---
 src/particle_filter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index e30be3f..d9270b5 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -27,6 +27,7 @@
  */
 
 #include <angles/angles.h>
+#include <cmath>
 #include <random>
 #include <ndt_2d/particle_filter.hpp>
 
@@ -168,9 +169,17 @@ void ParticleFilter::updateStatistics()
   {
     sum_weight += w;
   }
-  for (auto & w : weights_)
+  if (std::isfinite(sum_weight) && sum_weight != 0.0)
+  {
+    for (auto & w : weights_)
+    {
+      w /= sum_weight;
+    }
+  }
+  else
   {
-    w /= sum_weight;
+    // No particle explains the measurement: it carries no information
+    weights_.assign(weights_.size(), 1.0 / weights_.size());
   }
 
   // Temporary mean and correlation
-- 
2.43.0


From e4b049cc1b75a2802b7f079734cd2b740f630766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 05/34] fix: resampled particles carry equal weights

The old weights were kept, so the mean after resampling counted them twice.
---
 src/particle_filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index d9270b5..d2816f6 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -112,7 +112,8 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
     size_t p = d(gen_);
     kd_tree_.insert(particles_[p], weights_[p]);
     resampled.push_back(particles_[p]);
-    resampled_weights.push_back(weights_[p]);
+    // Particles are drawn according to weight, do not count the weight again
+    resampled_weights.push_back(1.0);
 
     // Recompute crazy equation
     size_t k = kd_tree_.getLeafCount();
-- 
2.43.0


From b50b78999375fbfe489b87b57eab146072765c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 06/34] fix: KDTree leaf nodes around zero have the requested
 size

Truncation towards zero merged the bins on both sides of zero.
---
 include/ndt_2d/kd_tree.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/kd_tree.hpp b/include/ndt_2d/kd_tree.hpp
index 0012054..b9f0f34 100644
--- a/include/ndt_2d/kd_tree.hpp
+++ b/include/ndt_2d/kd_tree.hpp
@@ -30,6 +30,7 @@
 #define NDT_2D__KD_TREE_HPP_
 
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <utility>
@@ -97,9 +98,9 @@ public:
   void insert(Eigen::Vector3d & cont_key, T & value)
   {
     int key[3];
-    key[0] = static_cast<int>(cont_key(0) / cell_size_(0));
-    key[1] = static_cast<int>(cont_key(1) / cell_size_(1));
-    key[2] = static_cast<int>(cont_key(2) / cell_size_(2));
+    key[0] = static_cast<int>(std::floor(cont_key(0) / cell_size_(0)));
+    key[1] = static_cast<int>(std::floor(cont_key(1) / cell_size_(1)));
+    key[2] = static_cast<int>(std::floor(cont_key(2) / cell_size_(2)));
 
     if (nodes_.empty())
     {
-- 
2.43.0


From 2091b7c9fee638a26a96e2f5eebfd4969c005e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 07/34] fix: optimizing a graph whose first scan has no
 constraint does not abort

---
 src/ceres_solver.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..c198bb0 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -87,9 +87,14 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
 
   // Make first node fixed
   auto first_node_ = nodes_.find(scans[0]->getId());
-  problem_->SetParameterBlockConstant(&first_node_->second(0));
-  problem_->SetParameterBlockConstant(&first_node_->second(1));
-  problem_->SetParameterBlockConstant(&first_node_->second(2));
+  for (size_t i = 0; i < 3; ++i)
+  {
+    // A node without constraints is not part of the problem (and can not move)
+    if (problem_->HasParameterBlock(&first_node_->second(i)))
+    {
+      problem_->SetParameterBlockConstant(&first_node_->second(i));
+    }
+  }
 
   // Run the solver
   ceres::Solver::Summary summary;
-- 
2.43.0


From 7a7335ad54a231322a575a5eec90fce27dacd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 08/34] fix: weight constraint residuals by the information
 matrix

With information = L * L^T, the squared norm of L * r is not r^T * information * r
unless the matrix is diagonal; that of L^T * r is.
---
 src/ceres_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index c198bb0..47460c3 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -134,7 +134,7 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From 533bf18a2c74c936a701dbebb3b1fcf2dede82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 09/34] fix: NDT scan matcher accepts an empty range of scans

The bounding box of no scans made a huge NDT: the node died when localizing
with an empty map.
---
 src/scan_matcher_ndt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..3d6989e 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,6 +49,9 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  // Nothing to add, and no bounding box for it
+  if (begin == end) return;
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
   double max_x_ = std::numeric_limits<double>::min();
-- 
2.43.0


From ec7b06f8bc36a2b801eb2207e05acae8b0bdac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 10/34] fix: covariance of a scan match subtracts the mean

Olson, 2009 (the reference given in README.md): K / s - u * u^T / s^2.
---
 src/scan_matcher_ndt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 3d6989e..d827b84 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -146,7 +146,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From f5fae01a7ec142a49b527ab8ff9b6302a4f8f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 11/34] fix: scan matches without points or overlap stay finite

The score of an empty scan and the covariance of a match without any overlap
were NaN, which then spread to the matcher response and the pose graph.
---
 src/scan_matcher_ndt.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index d827b84..ab9eb4d 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -146,7 +146,20 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
+  if (s < 0.0)
+  {
+    covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
+  }
+  else
+  {
+    // Nothing matched: the pose could be anywhere in the search window
+    covariance = Eigen::Matrix3d::Zero();
+    covariance(0, 0) = covariance(1, 1) = linear_size_ * linear_size_ / 3.0;
+    covariance(2, 2) = angular_size_ * angular_size_ / 3.0;
+  }
+
+  // An empty scan scores zero
+  if (scan_points_to_use == 0) return 0.0;
 
   return best_score / scan_points_to_use;
 }
@@ -168,6 +181,9 @@ double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose
   size_t scan_points_to_use = std::min(laser_max_beams_, points.size());
   double scan_step = static_cast<double>(points.size()) / scan_points_to_use;
 
+  // An empty scan scores zero
+  if (scan_points_to_use == 0) return 0.0;
+
   double score = 0.0;
   for (size_t i = 0; i < scan_points_to_use; ++i)
   {
-- 
2.43.0


From cbc3960e70903b218c860619454c13ae57c1cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 12/34] fix: NDT cells always score within [0, 1]

A cell in which all points coincide had a singular covariance and scored NaN, or
more than one.
---
 src/ndt_model.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..3e3182a 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -30,6 +30,7 @@
 #include <Eigen/Eigen>
 #include <Eigen/Eigenvalues>
 
+#include <algorithm>
 #include <cmath>
 #include <ndt_2d/conversions.hpp>
 #include <ndt_2d/ndt_model.hpp>
@@ -85,7 +86,12 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
-  if (small < 0.001 * large)
+  if (large < 1e-9)
+  {
+    // All points are at the same place, what is left of the covariance is rounding
+    information = Eigen::Matrix2d::Identity() * 1e9;
+  }
+  else if (small < 0.001 * large)
   {
     // Special case
     double determinant = (0.001 * large) * large;
@@ -112,7 +118,8 @@ double Cell::score(const Eigen::Vector2d & point)
 
   const auto q = point - mean;
   const double exponent = -0.5 * q.transpose() * information * q;
-  return std::exp(exponent);
+  // Rounding can make the information matrix slightly indefinite
+  return std::exp(std::min(0.0, exponent));
 }
 
 NDT::NDT(double cell_size, double size_x, double size_y, double origin_x, double origin_y)
-- 
2.43.0


From 3120e7a4fbbfa37be5c35d991e6eb412aeac9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 13/34] fix: odometry constraint is never visible before its
 scan

---
 src/ndt_mapper.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..8b78652 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -498,6 +498,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Odom pose: %f, %f, %f", odom_pose.x, odom_pose.y, odom_pose.theta);
 
     double matched_score = 0.0;
+    ConstraintPtr constraint;
     if (!graph_->scans.empty())
     {
       // Determine rolling window
@@ -523,19 +524,18 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       correction.theta += scan->getPose().theta;
       scan->setPose(correction);
 
-      // Add odom constraint to the graph
-      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
-      std::lock_guard<std::mutex> lock(graph_mutex_);
-      graph_->constraints.push_back(constraint);
+      // Create odom constraint to the previous scan
+      constraint = makeConstraint(graph_->scans.back(), scan, covariance);
     }
 
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
-    // Append new scan to our graph
+    // Append new scan (and the constraint that refers to it) to our graph
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
       graph_->scans.push_back(scan);
+      if (constraint) graph_->constraints.push_back(constraint);
     }
 
     // Update previous pose tracking (under lock)
-- 
2.43.0


From 51c837f48b785b713b85d0341b023c4602eb71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 14/34] fix: local matching uses the configured rolling_depth

---
 src/ndt_mapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 8b78652..349f836 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -502,14 +502,15 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 :
+        graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
       local_scan_matcher_->reset();
       local_scan_matcher_->addScans(rolling, graph_->scans.end());
 
-      // Local consistency - match new scan against last 10 scans
+      // Local consistency - match new scan against last rolling_depth_ scans
       Pose2d correction;
       Eigen::Matrix3d covariance;
       double uncorrected_score = local_scan_matcher_->scoreScan(scan);
-- 
2.43.0


From 41a38c4e51a53790d09969482c13cbdbe58d2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 15/34] fix: particle filter localization never runs with
 mapping enabled

---
 src/ndt_mapper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 349f836..5411e0b 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -88,6 +88,8 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   }
 
   enable_mapping_ = this->declare_parameter<bool>("enable_mapping", true);
+  // The particle filter only localizes in the loaded map
+  if (use_particle_filter_) enable_mapping_ = false;
   scan_matcher_type_ = this->declare_parameter<std::string>("scan_matcher_type",
                                                             "ndt_2d::ScanMatcherNDT");
 
@@ -156,7 +158,11 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
                        std::shared_ptr<srv::Configure::Response>)
 {
   // Enable/disable
-  if (request->action & srv::Configure::Request::ENABLE_MAPPING)
+  if ((request->action & srv::Configure::Request::ENABLE_MAPPING) && use_particle_filter_)
+  {
+    RCLCPP_WARN(logger_, "Cannot enable mapping when using particle filter");
+  }
+  else if (request->action & srv::Configure::Request::ENABLE_MAPPING)
   {
     RCLCPP_INFO(logger_, "Enabling mapping");
     enable_mapping_ = true;
-- 
2.43.0


From d2779c8fb06595ebdaefd81b9b8c54dd78e67aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 16/34] fix: initial pose updates the tracked poses under their
 lock

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 5411e0b..459809a 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -261,7 +261,8 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     graph_->constraints.push_back(constraint);
   }
 
-  // Localize robot
+  // Localize robot (under lock)
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
-- 
2.43.0


From 4d2f6e16f399808f8b42c00f1be05881f7aa71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 17/34] fix: map publish thread locks the graph before
 accessing it

---
 src/ndt_mapper.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 459809a..81a67b6 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -721,8 +721,15 @@ void Mapper::mapPublishThread()
       graph_pub_->publish(graph_msg);
     }
 
+    // Is there a map to publish TF for?
+    bool have_scans;
+    {
+      std::lock_guard<std::mutex> lock(graph_mutex_);
+      have_scans = !graph_->scans.empty();
+    }
+
     // Publish TF
-    if (!graph_->scans.empty())
+    if (have_scans)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From c91423098d5ec936bb1ccc341c3bf69e90dc51a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 18/34] fix: publish the graph after an initial pose extends it

---
 src/ndt_mapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 81a67b6..4eabe57 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -259,6 +259,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     covariance(2, 2) = msg->pose.covariance[35];
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
+    map_update_available_ = true;
   }
 
   // Localize robot (under lock)
-- 
2.43.0


From 6c42d4379a63fda1da5aca93c0e957e5743924cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 19/34] fix: global_search_limit of zero means no candidates,
 not all of them

---
 src/ndt_mapper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 4eabe57..a827228 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -625,9 +625,11 @@ void Mapper::loopClosureThread()
         }
 
         // Now do global loop closure scan matching
-        size_t num_scans_to_check = global_search_limit_;
+        size_t num_scans_checked = 0;
         for (auto i : scans)
         {
+          if (num_scans_checked >= global_search_limit_) break;
+
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph_->scans[i];
@@ -676,7 +678,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
           }
 
-          if (--num_scans_to_check == 0) break;
+          ++num_scans_checked;
         }
       }
     }
-- 
2.43.0


From 2bdc6eafbbdb797188f6662374b9c32f654d4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 20/34] fix: a failed load or save keeps the node and its map

---
 src/ndt_mapper.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index a827228..e669132 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -179,15 +179,29 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Loading map from %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
-    map_update_available_ = true;
-    prev_odom_pose_is_initialized_ = false;
+    try
+    {
+      graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+      map_update_available_ = true;
+      prev_odom_pose_is_initialized_ = false;
+    }
+    catch (const std::exception& ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not load map: %s", ex.what());
+    }
   }
   else if (request->action & srv::Configure::Request::SAVE_TO_FILE)
   {
     RCLCPP_INFO(logger_, "Saving map to %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_->save(request->filename);
+    try
+    {
+      graph_->save(request->filename);
+    }
+    catch (const std::exception& ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not save map: %s", ex.what());
+    }
   }
 }
 
-- 
2.43.0


From 18c2d86af065c8e72f0551e773a5367198016acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 21/34] fix: inverted laser keeps its first beam

---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index e669132..777fbed 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -429,7 +429,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t i = msg->ranges.size(); i-- > 0; )
     {
       // Filter out NANs and scans beyond max range
       if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
-- 
2.43.0


From fb6f507907c2870d38cf533013b78c8487953f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 22/34] fix: beams of an inverted laser are measured in order
 of their index

---
 src/ndt_mapper.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 777fbed..01922e3 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -441,11 +441,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       Point point(cos_lt * lp.x - sin_lt * lp.y + laser_transform_.x,
                   sin_lt * lp.x + cos_lt * lp.y + laser_transform_.y);
       // Apply laser movement
-      double cos_tt = cos(translation.theta - (trans_per_meas.theta * i));
-      double sin_tt = sin(translation.theta - (trans_per_meas.theta * i));
-      Point translated(
-        cos_tt * point.x - sin_tt * point.y +(translation.x - (trans_per_meas.x * i)),
-        sin_tt * point.x + cos_tt * point.y + (translation.y - (trans_per_meas.y * i)));
+      double cos_tt = cos(trans_per_meas.theta * i);
+      double sin_tt = sin(trans_per_meas.theta * i);
+      Point translated(cos_tt * point.x - sin_tt * point.y + (trans_per_meas.x * i),
+                       sin_tt * point.x + cos_tt * point.y + (trans_per_meas.y * i));
       // Add point to scan
       points.push_back(translated);
     }
-- 
2.43.0


From 91aefd4c8380abb17f6742929731a9235c3af232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 23/34] fix: scan motion compensation is done in the robot
 frame

---
 src/ndt_mapper.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 01922e3..4463ce9 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -404,17 +404,23 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     return;
   }
 
-  // Determine movement between start and end of laser scan
-  Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
-
-  // Now scale it by number of measurements
+  // Determine movement between start and end of laser scan (in the robot frame at start of scan)
+  Pose2d end_odom_pose = fromMsg(end_odom_pose_tf);
+  double odom_dx = end_odom_pose.x - odom_pose.x;
+  double odom_dy = end_odom_pose.y - odom_pose.y;
+  Pose2d translation;
+  translation.x = cos(odom_pose.theta) * odom_dx + sin(odom_pose.theta) * odom_dy;
+  translation.y = cos(odom_pose.theta) * odom_dy - sin(odom_pose.theta) * odom_dx;
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
+
+  // Now scale it by number of intervals between measurements
   Pose2d trans_per_meas;
-  trans_per_meas.x = translation.x / msg->ranges.size();
-  trans_per_meas.y = translation.y / msg->ranges.size();
-  trans_per_meas.theta = translation.theta / msg->ranges.size();
+  if (msg->ranges.size() > 1)
+  {
+    trans_per_meas.x = translation.x / (msg->ranges.size() - 1);
+    trans_per_meas.y = translation.y / (msg->ranges.size() - 1);
+    trans_per_meas.theta = translation.theta / (msg->ranges.size() - 1);
+  }
 
   // Need to convert the scan into an ndt_2d style
   ScanPtr scan = std::make_shared<Scan>(graph_->scans.size());
-- 
2.43.0


From fb3696215650877ba7a1f415e7ebca8de50af231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 24/34] fix: flags shared between threads are atomic

---
 include/ndt_2d/ndt_mapper.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9fe6ae4..3bb1ed0 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -32,6 +32,7 @@
 #include <tf2_ros/buffer.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_ros/transform_broadcaster.h>
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -75,7 +76,7 @@ protected:
 
   // Thread for publishing map and transforms
   void mapPublishThread();
-  bool map_update_available_;
+  std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
   // Mapping parameters
@@ -104,7 +105,7 @@ protected:
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
   std::string scan_matcher_type_;
-  double typical_matcher_response_;
+  std::atomic<double> typical_matcher_response_;
 
   // ROS 2 interfaces
   rclcpp::Logger logger_;
@@ -121,7 +122,7 @@ protected:
   // Map data
   GraphPtr graph_;
   std::mutex graph_mutex_;
-  bool enable_mapping_;
+  std::atomic<bool> enable_mapping_;
   std::mutex prev_pose_mutex_;
   // The previous odom_frame_->robot_frame_
   Pose2d prev_odom_pose_;
-- 
2.43.0


From 0b491075c2bd46cb5ecc8583735031ebfc083fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 25/34] fix: loop closure of a loaded map waits for the scan
 matcher

---
 include/ndt_2d/ndt_mapper.hpp | 2 ++
 src/ndt_mapper.cpp            | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 3bb1ed0..474d397 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -101,6 +101,8 @@ protected:
   // Scan matchers
   // Used for loop closure when mapping, and localization
   ScanMatcherPtr global_scan_matcher_;
+  // Always locked before graph_mutex_
+  std::mutex global_matcher_mutex_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 4463ce9..709bd13 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -314,6 +314,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     }
     laser_frame_ = msg->header.frame_id;
 
+    // Loop closure thread must not see this until it is initialized
+    std::lock_guard<std::mutex> lock(global_matcher_mutex_);
+
     // range_max_ must be set before building the global scan matcher NDT
     if (use_particle_filter_ || !enable_mapping_)
     {
@@ -606,6 +609,12 @@ void Mapper::loopClosureThread()
       continue;
     }
 
+    // Global scan matcher is created when the first scan is received
+    {
+      std::lock_guard<std::mutex> lock(global_matcher_mutex_);
+      if (!global_scan_matcher_) continue;
+    }
+
     // Determine number of scans (under lock)
     size_t num_scans;
     {
-- 
2.43.0


From 240ba9ec76b31d8d5951ccba04474139b8a9d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 26/34] fix: poses of scans in the graph are accessed under its
 lock

---
 src/ndt_mapper.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 709bd13..030afdc 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -537,8 +537,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
+      // Poses of scans in the graph can be changed by loop closure
+      std::unique_lock<std::mutex> lock(graph_mutex_);
       local_scan_matcher_->reset();
       local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      lock.unlock();
 
       // Local consistency - match new scan against last rolling_depth_ scans
       Pose2d correction;
@@ -556,12 +559,16 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       scan->setPose(correction);
 
       // Create odom constraint to the previous scan
+      lock.lock();
       constraint = makeConstraint(graph_->scans.back(), scan, covariance);
     }
 
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
+    // Once scan is in the graph, loop closure might change the pose
+    Pose2d corrected_pose = scan->getPose();
+
     // Append new scan (and the constraint that refers to it) to our graph
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
@@ -572,7 +579,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Update previous pose tracking (under lock)
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
     prev_odom_pose_ = odom_pose;
-    prev_robot_pose_ = scan->getPose();
+    prev_robot_pose_ = corrected_pose;
     map_update_available_ = true;
   }
   else
@@ -681,6 +688,9 @@ void Mapper::loopClosureThread()
           Eigen::Matrix3d covariance;
           double score = global_scan_matcher_->matchScan(scan, correction, covariance);
 
+          // Lock graph again before modifying it
+          lock.lock();
+
           if (std::isfinite(score) && (score < typical_matcher_response_))
           {
             new_matches = true;
@@ -696,7 +706,6 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
             graph_->constraints.push_back(constraint);
             map_update_available_ = true;
           }
-- 
2.43.0


From b409e1c8957808598dda9d663098b87981568f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 27/34] fix: localization always matches against the current
 map

---
 include/ndt_2d/ndt_mapper.hpp |  5 +++++
 src/ndt_mapper.cpp            | 41 +++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 474d397..04366c3 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -69,6 +69,9 @@ protected:
   /** @brief ROS callback for new laser scan */
   void laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg);
 
+  /** @brief Lock the global scan matcher, with an NDT of the entire graph */
+  std::unique_lock<std::mutex> lockGlobalMap();
+
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
@@ -103,6 +106,8 @@ protected:
   ScanMatcherPtr global_scan_matcher_;
   // Always locked before graph_mutex_
   std::mutex global_matcher_mutex_;
+  // Does the global scan matcher NDT have to be rebuilt before localization?
+  bool global_map_stale_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 030afdc..f92d01a 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -51,6 +51,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   map_update_available_(false),
   laser_inverted_(false),
   optimization_last_(0),
+  global_map_stale_(true),
   scan_matcher_loader_("ndt_2d", "ndt_2d::ScanMatcher"),
   typical_matcher_response_(-0.5),
   logger_(rclcpp::get_logger("ndt_2d_mapper")),
@@ -166,6 +167,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Enabling mapping");
     enable_mapping_ = true;
+    global_map_stale_ = true;
   }
   else if (request->action & srv::Configure::Request::DISABLE_MAPPING)
   {
@@ -184,6 +186,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
       graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
       map_update_available_ = true;
       prev_odom_pose_is_initialized_ = false;
+      global_map_stale_ = true;
     }
     catch (const std::exception& ex)
     {
@@ -318,20 +321,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     std::lock_guard<std::mutex> lock(global_matcher_mutex_);
 
     // range_max_ must be set before building the global scan matcher NDT
-    if (use_particle_filter_ || !enable_mapping_)
-    {
-      // When localizing, global scan matcher uses ALL scans
-      global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
-      global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-      // Note: no need to lock graph here, since this thread is the only one that adds scans
-      global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
-    }
-    else
-    {
-      // When map building, global scan matcher is just for loop closures
-      global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
-      global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-    }
+    global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
+    global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
 
     local_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
     local_scan_matcher_->initialize("local_scan_matcher", this, range_max_);
@@ -500,8 +491,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Updating filter with control %f %f %f", robot_delta(0),
                          robot_delta(1), robot_delta(2));
 
+    std::unique_lock<std::mutex> matcher_lock = lockGlobalMap();
     filter_->update(robot_delta(0), robot_delta(1), robot_delta(2));
     filter_->measure(global_scan_matcher_, scan);
+    matcher_lock.unlock();
     filter_->resample(kld_err_, kld_z_);
 
     auto mean = filter_->getMean();
@@ -587,8 +580,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Not using particle filter, nor mapping, just track motion of robot
     Pose2d correction;
     Eigen::Matrix3d covariance;
+    std::unique_lock<std::mutex> matcher_lock = lockGlobalMap();
     double uncorrected_score = global_scan_matcher_->scoreScan(scan);
     double score = global_scan_matcher_->matchScan(scan, correction, covariance);
+    matcher_lock.unlock();
     RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                 correction.x, correction.y, correction.theta, uncorrected_score, score);
 
@@ -604,6 +599,20 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 }
 
+std::unique_lock<std::mutex> Mapper::lockGlobalMap()
+{
+  std::unique_lock<std::mutex> matcher_lock(global_matcher_mutex_);
+  if (global_map_stale_)
+  {
+    // When localizing, global scan matcher uses ALL scans
+    std::lock_guard<std::mutex> lock(graph_mutex_);
+    global_scan_matcher_->reset();
+    global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+    global_map_stale_ = false;
+  }
+  return matcher_lock;
+}
+
 void Mapper::loopClosureThread()
 {
   while (rclcpp::ok())
@@ -665,6 +674,10 @@ void Mapper::loopClosureThread()
         {
           if (num_scans_checked >= global_search_limit_) break;
 
+          // Localization uses the matcher once mapping is disabled
+          std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+          if (!enable_mapping_) break;
+
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph_->scans[i];
-- 
2.43.0


From 50cb83b2cd81c52efce3b36d68ff2279c30a1742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 28/34] fix: loop closure does not change the map once mapping
 is disabled

---
 src/ndt_mapper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index f92d01a..fef6e35 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -172,6 +172,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   else if (request->action & srv::Configure::Request::DISABLE_MAPPING)
   {
     RCLCPP_INFO(logger_, "Disabling mapping");
+    // Loop closure must not change the graph after this
+    std::lock_guard<std::mutex> lock(graph_mutex_);
     enable_mapping_ = false;
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
@@ -654,7 +656,7 @@ void Mapper::loopClosureThread()
     if (num_scans > global_scans_processed_)
     {
       // We have new scans to process
-      for (; global_scans_processed_ < num_scans; ++global_scans_processed_)
+      for (; global_scans_processed_ < num_scans && enable_mapping_; ++global_scans_processed_)
       {
         // Determine where rolling window starts
         size_t rolling = global_scans_processed_ - rolling_depth_;
@@ -703,6 +705,7 @@ void Mapper::loopClosureThread()
 
           // Lock graph again before modifying it
           lock.lock();
+          if (!enable_mapping_) break;
 
           if (std::isfinite(score) && (score < typical_matcher_response_))
           {
@@ -738,6 +741,7 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      if (!enable_mapping_) continue;
       solver_->optimize(graph_->constraints, graph_->scans);
       optimization_last_ = graph_->scans.size();
       map_update_available_ = true;
-- 
2.43.0


From 89ce9a200865c67b8dde597857443793d8208b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 29/34] fix: loading a map restarts loop closure and
 optimization

---
 include/ndt_2d/ndt_mapper.hpp |  2 ++
 src/ndt_mapper.cpp            | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 04366c3..1ee0236 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -75,6 +75,8 @@ protected:
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
+  // Graph that the loop closure progress, and the solver, belong to
+  GraphPtr loop_closure_graph_;
   std::unique_ptr<std::thread> loop_closure_thread_;
 
   // Thread for publishing map and transforms
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index fef6e35..0579513 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -635,9 +635,20 @@ void Mapper::loopClosureThread()
 
     // Determine number of scans (under lock)
     size_t num_scans;
+    GraphPtr graph;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      num_scans = graph_->scans.size();
+      graph = graph_;
+      num_scans = graph->scans.size();
+    }
+
+    // Start over when another map was loaded
+    if (graph != loop_closure_graph_)
+    {
+      loop_closure_graph_ = graph;
+      global_scans_processed_ = 0;
+      optimization_last_ = 0;
+      solver_ = std::make_shared<CeresSolver>();
     }
 
     // Can't do a global search until we have at least enough scans
@@ -666,6 +677,7 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
+          if (graph != graph_) break;
           scan = graph_->scans[global_scans_processed_];
           scans = graph_->findNearest(scan, global_search_size_, rolling);
         }
@@ -682,6 +694,7 @@ void Mapper::loopClosureThread()
 
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
+          if (graph != graph_) break;
           const auto candidate = graph_->scans[i];
           if (candidate->getPoints().empty()) continue;
 
@@ -705,7 +718,7 @@ void Mapper::loopClosureThread()
 
           // Lock graph again before modifying it
           lock.lock();
-          if (!enable_mapping_) break;
+          if (!enable_mapping_ || graph != graph_) break;
 
           if (std::isfinite(score) && (score < typical_matcher_response_))
           {
@@ -741,7 +754,7 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      if (!enable_mapping_) continue;
+      if (!enable_mapping_ || graph != graph_) continue;
       solver_->optimize(graph_->constraints, graph_->scans);
       optimization_last_ = graph_->scans.size();
       map_update_available_ = true;
-- 
2.43.0


From bc5e0f54202eabcbf27ea37f086e08c9e52d3e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 30/34] fix: points far outside the NDT grid wrapped around
 into its cells

---
 src/ndt_model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index 3e3182a..0aa065f 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -214,13 +214,16 @@ int NDT::getIndex(double x, double y)
     return -1;
   }
 
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
+  // Check the size before truncating, as an index far outside does not fit an integer
+  const double cell_x = (x - origin_x_) / cell_size_;
+  const double cell_y = (y - origin_y_) / cell_size_;
+  if (!(cell_x < size_x_) || !(cell_y < size_y_))
   {
     return -1;
   }
 
+  unsigned int grid_x = cell_x;
+  unsigned int grid_y = cell_y;
   return (grid_y * size_x_) + grid_x;
 }
 
-- 
2.43.0


From 3b98f8e5215e81900aad18af84aacfbb920c5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 31/34] fix: NDT of scans at negative coordinates reached all
 the way to the origin

---
 src/scan_matcher_ndt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index ab9eb4d..787f566 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -54,9 +54,9 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From e8598f63c75e89a4237b3824a680aca8508144d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 32/34] fix: covariance of a match with hardly any overlap was
 not finite

---
 src/scan_matcher_ndt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 787f566..3fe852a 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -145,8 +145,8 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     }
   }
 
-  // Compute covariance
-  if (s < 0.0)
+  // Compute covariance, unless the sum of scores is so small that its square underflows
+  if (s < -1e-100)
   {
     covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
   }
-- 
2.43.0


From 2f8b50ade9a58f3f4589cfa603c127d9a7ce2488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 33/34] fix: rays of the occupancy grid are straight

The second test of Bresenham's algorithm used the already updated error, so
rays left the straight line by up to one and a half cells.
---
 src/occupancy_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index 6021fe6..4c02695 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -104,7 +104,9 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           break;
         }
         ++empty[index];
-        if (2 * error >= dy)
+        // Both tests have to use the error before this step
+        const int error2 = 2 * error;
+        if (error2 >= dy)
         {
           if (x == end_x)
           {
@@ -114,7 +116,7 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           error = error + dy;
           x += sx;
         }
-        if (2 * error <= dx)
+        if (error2 <= dx)
         {
           if (y == end_y)
           {
-- 
2.43.0


From aeb035bd07da1b31dcb5af36544fa19c73c1cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 34/34] fix: end time of a scan without beams

The unsigned number of beams minus one wrapped around, asking for the pose of
the robot at a time centuries away.
---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 0579513..063edf9 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -383,9 +383,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
   // Now determine robot pose at end of laser scan
   geometry_msgs::msg::PoseStamped end_odom_pose_tf;
+  size_t num_intervals = msg->ranges.empty() ? 0 : msg->ranges.size() - 1;
   end_odom_pose_tf.header.stamp = rclcpp::Time(msg->header.stamp) +
     rclcpp::Duration::from_seconds(
-      static_cast<double>(msg->ranges.size() - 1) * static_cast<double>(msg->time_increment));
+      static_cast<double>(num_intervals) * static_cast<double>(msg->time_increment));
   end_odom_pose_tf.header.frame_id = robot_frame_;
   end_odom_pose_tf.pose.orientation.w = 1.0;
   try
-- 
2.43.0

