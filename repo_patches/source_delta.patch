From ed6787d11a4c847a1ecd716af36443123dd01404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 01/14] fix: divide scan lines into sectors with exact integer
 arithmetic

Rounding in the floating point interpolation made some sectors empty,
e.g. start 3, end 23 and 20 blocks.
---
 extraction/src/index_range.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extraction/src/index_range.cpp b/extraction/src/index_range.cpp
index 44187f8..f409905 100644
--- a/extraction/src/index_range.cpp
+++ b/extraction/src/index_range.cpp
@@ -27,6 +27,8 @@
 // POSSIBILITY OF SUCH DAMAGE.
 
 
+#include <cstdint>
+
 #include "lidar_feature_extraction/index_range.hpp"
 
 IndexRange::IndexRange(const int start_index, const int end_index, const int n_blocks)
@@ -59,10 +61,8 @@ int IndexRange::End(const int j) const
 
 int IndexRange::Boundary(const int j) const
 {
-  const double s = static_cast<double>(start_index_);
-  const double e = static_cast<double>(end_index_);
-  const double n = static_cast<double>(n_blocks_);
-  return static_cast<int>(s * (1. - j / n) + e * j / n);
+  const std::int64_t length = static_cast<std::int64_t>(end_index_) - start_index_;
+  return start_index_ + static_cast<int>(length * j / n_blocks_);
 }
 
 void IndexRange::ThrowExceptionIfOutOfRange(const int j) const
-- 
2.43.0


From a5a2dfde54e78cbd7bd9b74a6ee9c553097abfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 02/14] fix: order points on the positive x axis consistently
 by azimuth

Two different points on the positive x axis were each smaller than the other,
which is not a strict weak order and undefined behaviour in std::sort.
---
 extraction/include/lidar_feature_extraction/ring.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..0416f99 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -81,7 +81,7 @@ struct AHasSmallerPolarAngleThanB
     }
 
     if (a.y == 0) {
-      return (a.x >= 0) && (b.y >= 0);
+      return (a.x >= 0) && (b.y > 0 || (b.y == 0 && b.x < 0));
     }
 
     if (b.y == 0) {
-- 
2.43.0


From 603e14ce617ee8861493760e37d1c4a9f6e755de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 03/14] fix: keep the cosine of the angle between points in the
 domain of acos

Rounding could push it beyond one, so that points in the same direction got
the angle NaN and were not neighbors.
---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..b595c59 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,8 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
+#include <cmath>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -42,5 +44,5 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
   }
 
   const double cos_angle = dot / (norm1 * norm2);
-  return std::acos(cos_angle);
+  return std::acos(std::clamp(cos_angle, -1., 1.));
 }
-- 
2.43.0


From f9dbc07285f074d746114f54b59dd73e61b0d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 04/14] fix: compute ranges of the requested points

The begin index was ignored.
---
 extraction/include/lidar_feature_extraction/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/range.hpp b/extraction/include/lidar_feature_extraction/range.hpp
index 6474fdc..015b657 100644
--- a/extraction/include/lidar_feature_extraction/range.hpp
+++ b/extraction/include/lidar_feature_extraction/range.hpp
@@ -59,7 +59,7 @@ public:
   {
     std::vector<double> ranges(end - begin);
     for (unsigned int i = 0; i < ranges.size(); i++) {
-      ranges.at(i) = (*this)(i);
+      ranges.at(i) = (*this)(begin + i);
     }
     return ranges;
   }
-- 
2.43.0


From 4c35df7da6d7760c60f9282d587f4ad1c7e86f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 05/14] fix: do not read the first character of an empty frame
 name

---
 ekf_localizer/src/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekf_localizer/src/string.cpp b/ekf_localizer/src/string.cpp
index be6884e..a033629 100644
--- a/ekf_localizer/src/string.cpp
+++ b/ekf_localizer/src/string.cpp
@@ -18,7 +18,7 @@
 std::string EraseBeginSlash(const std::string & s)
 {
   std::string a = s;
-  if (a.front() == '/') {
+  if (!a.empty() && a.front() == '/') {
     a.erase(0, 1);
   }
   return a;
-- 
2.43.0


From 74dcef63f40d3fbfaa315d90f98d11bf1e850a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 06/14] fix: do not use a missing transform for the initial
 pose

---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..b1e0cf7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From 679f8db33ede24cd349f74730f6274f583779b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 07/14] fix: do not step before the first entry when pruning
 stamp sorted objects

---
 .../stamp_sorted_objects.hpp                       | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..73f923e 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -89,19 +89,7 @@ public:
 
     // g is the first element in map that satisfies timestamp < g
     const auto g = objects_.upper_bound(timestamp);
-
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    objects_.erase(g, objects_.end());
   }
 
 private:
-- 
2.43.0


From 029d73b60d0bf8d53fe3a62bcabae4a51eb3d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 08/14] fix: apply every queued measurement once per update
 round

The queue shrinks while messages are popped, so re-evaluating its size in the
loop condition skipped messages that were due in the same round.
---
 ekf_localizer/src/pose_measurement.cpp  | 3 ++-
 ekf_localizer/src/twist_measurement.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..7b344ad 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,8 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n = messages_.size();
+  for (size_t i = 0; i < n; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..e74798a 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,8 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n = messages_.size();
+  for (size_t i = 0; i < n; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From 7c32a75e14e4b31c540cde2bcb488a725d432877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 09/14] fix: reject a negative delay step instead of writing
 outside the measurement matrix

---
 kalman_filter/src/time_delay_kalman_filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalman_filter/src/time_delay_kalman_filter.cpp b/kalman_filter/src/time_delay_kalman_filter.cpp
index 8ca88c6..858ae4f 100644
--- a/kalman_filter/src/time_delay_kalman_filter.cpp
+++ b/kalman_filter/src/time_delay_kalman_filter.cpp
@@ -117,6 +117,10 @@ std::tuple<Eigen::VectorXd, Eigen::MatrixXd> UpdateWithDelay(
   const Eigen::VectorXd & y, const Eigen::MatrixXd & C, const Eigen::MatrixXd & R,
   const int delay_step, const int max_delay_step_)
 {
+  if (delay_step < 0) {
+    throw std::invalid_argument("The delay step is negative");
+  }
+
   if (delay_step >= max_delay_step_) {
     throw std::invalid_argument("The delay step is larger than the maximum allowed value");
   }
-- 
2.43.0


From e3296d413c92a1fecd4acc9e021dd87c509a2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 10/14] fix: solve for the update at the quaternion the
 jacobians were taken at

---
 .../include/lidar_feature_localization/optimizer.hpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/localization/include/lidar_feature_localization/optimizer.hpp b/localization/include/lidar_feature_localization/optimizer.hpp
index d6efc57..b93788f 100644
--- a/localization/include/lidar_feature_localization/optimizer.hpp
+++ b/localization/include/lidar_feature_localization/optimizer.hpp
@@ -110,7 +110,11 @@ public:
       prev_scale = scale;
 
       const Eigen::VectorXd weights = ComputeWeights(normalized);
-      const auto [dq, dt] = CalcUpdate(q, weights, jacobians, residuals);
+
+      // The jacobians are derivatives at the quaternion obtained from the pose, whose sign can be
+      // opposite to that of q although both represent the same rotation.
+      const Eigen::Quaterniond pose_q(pose.linear());
+      const auto [dq, dt] = CalcUpdate(pose_q, weights, jacobians, residuals);
 
       q = q * dq;
       t = t + dt;
-- 
2.43.0


From c247d6b56f91f6f8a9417514d42e892025b3af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 11/14] fix: keep the scalar filter's state when state and
 measurement are both exact

With both variances zero the gain was 0/0, and the state became NaN for good.
---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 6cf61a8..b6fabfb 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -84,7 +84,9 @@ public:
     stddev_ = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
 
     // Update step
-    double kalman_gain = stddev_ * stddev_ / (stddev_ * stddev_ + obs_stddev * obs_stddev);
+    const double variance_sum = stddev_ * stddev_ + obs_stddev * obs_stddev;
+    // Keep the state if both the state and the measurement are exact
+    double kalman_gain = variance_sum > 0. ? stddev_ * stddev_ / variance_sum : 0.;
     x_ = x_ + kalman_gain * (obs - x_);
     stddev_ = std::sqrt(1 - kalman_gain) * stddev_;
 
-- 
2.43.0


From 72448da8362efcc1dd8b3725c4eeacba99aa417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 12/14] fix: rotate the initial position by the transform into
 the filter's frame

The position was only translated, while the heading was turned by the
transform's yaw: with a turned frame the filter started at a wrong place.
---
 ekf_localizer/src/ekf_localizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index b1e0cf7..c3956bf 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -247,7 +247,8 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
   const Eigen::Vector3d translation = ToVector3d(maybe_transform->transform.translation);
-  const Eigen::Vector3d t = initial_position + translation;
+  const Eigen::Quaterniond rotation = ToQuaterniond(maybe_transform->transform.rotation);
+  const Eigen::Vector3d t = rotation * initial_position + translation;
   const double initial_yaw = tf2::getYaw(initialpose->pose.pose.orientation);
   const double yaw = tf2::getYaw(maybe_transform->transform.rotation);
 
-- 
2.43.0


From b35b00e84379f2d0ca2e2e8af196ba37a7d4470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 13/14] fix: count delay steps without overflowing the int

A delay of more than INT_MAX steps (an unset time stamp, a zero time step)
was converted out of range; the result, INT_MIN in practice, passed the
delay check and indexed the filter's history with a negative step.
---
 ekf_localizer/include/ekf_localizer/delay.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..06ca94d 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -16,6 +16,8 @@
 #define EKF_LOCALIZER__DELAY_HPP_
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +29,17 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  const double delay = std::max(delay_time, 0.);
+  if (delay == 0.) {
+    return 0;
+  }
+
+  // too many steps for an int, e.g. because the time stamp is not set or there is no time step
+  constexpr int max_step = std::numeric_limits<int>::max();
+  if (delay >= max_step * dt) {
+    return max_step;
+  }
+  return std::round(delay / dt);
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From 1f5474392a460db1373001a1d4fc90a323c68c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 14/14] fix: compare headings modulo a full turn in the pose
 measurement update

With the estimated yaw just below pi and the measured one just above -pi
the difference was almost a full turn, so the gate rejected a plausible
pose, or a wide gate let it swing the estimate around.
---
 ekf_localizer/src/pose_measurement.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7b344ad..73c2212 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -92,13 +92,17 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+
+    // take the measured yaw as the angle nearest to the estimated one
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));
+
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0

