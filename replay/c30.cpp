// FLAGS: -I@VERIF@/units/stubs/real -I@VERIF@/units/stubs -I/usr/include/pcl-1.14 -I@REPO@/ekf_localizer/include -I@REPO@/kalman_filter/include -I/usr/include/eigen3 -DFMT_HEADER_ONLY @REPO@/ekf_localizer/src/check.cpp @REPO@/ekf_localizer/src/mahalanobis.cpp @REPO@/ekf_localizer/src/state_transition.cpp @REPO@/ekf_localizer/src/update_interval.cpp @REPO@/kalman_filter/src/time_delay_kalman_filter.cpp @REPO@/kalman_filter/src/kalman_filter.cpp @REPO@/lib/src/ros_msg.cpp @REPO@/lib/src/eigen.cpp @REPO@/rotationlib/src/quaternion.cpp
#include "node.hpp"
using namespace rp;
static Eigen::Quaterniond turn(bool level)
{
  if (coin()) {return Eigen::Quaterniond::Identity();}
  Eigen::Quaterniond q(Eigen::AngleAxisd(rr(-3.1, 3.1), level ? Eigen::Vector3d::UnitZ() : Eigen::Vector3d(rr(-1, 1), rr(-1, 1), rr(0.1, 1)).normalized()));
  return q;
}
static geometry_msgs::msg::Quaternion msg(const Eigen::Quaterniond & q) {geometry_msgs::msg::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m;}
int main(int c, char ** v)
{
  auto initial = [] {
      const bool level = coin();
      const Eigen::Quaterniond qt = turn(level), qp = turn(level);
      const Eigen::Vector3d t(rd(50), rd(50), rd(50)), p(rd(50), rd(50), rd(50));
      the_transform.transform.rotation = msg(qt);
      the_transform.transform.translation.x = t(0); the_transform.transform.translation.y = t(1); the_transform.transform.translation.z = t(2);
      const int fails = pick<int>({0, 0, 1, 49, 50, 60});
      const bool before = coin();
      const int queued = ri(0, 3);
      auto m = std::make_shared<PoseWithCovarianceStamped>();
      m->header.frame_id = coin() ? "/given" : "given";
      m->pose.pose.position.x = p(0); m->pose.pose.position.y = p(1); m->pose.pose.position.z = p(2);
      m->pose.pose.orientation = msg(qp);
      for (int i = 0; i < 36; i++) {m->pose.covariance[i] = i % 7 == 0 ? rr(0.01, 3) : rr(-0.01, 0.01);}
      Case k; k << "transform (" << t.transpose() << " | " << qt.coeffs().transpose() << ") pose (" << p.transpose() << " | " << qp.coeffs().transpose() << ") lookups that fail " << fails
                << (before ? " filter running" : " no filter") << " queued " << queued; k.set();
      EKFLocalizer node("ekf", rclcpp::NodeOptions());
      Eigen::VectorXd x0(6); x0 << 1, 2, 3, 4, 5, 6;
      const Eigen::MatrixXd P0 = 2 * Eigen::MatrixXd::Identity(6, 6);
      if (before) {
        node.ekf_ = std::make_shared<TimeDelayKalmanFilter>(x0, P0, 7);
        node.z_filter_.init(1, 2, rclcpp::Time());
      }
      for (int i = 0; i < queued; i++) {
        node.pose_measurement_.Push(std::make_shared<PoseWithCovarianceStamped>());
        node.twist_measurement_.Push(std::make_shared<geometry_msgs::msg::TwistWithCovarianceStamped>());
      }
      failures = fails;
      const auto * old = node.ekf_.get();
      node.callbackInitialPose(m);
      const size_t np = node.pose_measurement_.messages_.size(), nt = node.twist_measurement_.messages_.size();
      if (fails >= 50) {
        expect(node.ekf_.get() == old, "filter replaced without a transform");
        expect(int(np) == queued && int(nt) == queued, "queue changed without a transform");
        if (before) {expect(node.ekf_->getLatestX() == x0 && node.ekf_->getLatestP() == P0 && node.z_filter_.get_x() == 1, "state changed without a transform");}
        return;
      }
      expect(asked_parent == "map" && asked_child == "given", "frames asked for: " + asked_parent + " " + asked_child);
      expect(bool(node.ekf_), "no filter");
      const Eigen::VectorXd x = node.ekf_->getLatestX();
      const Eigen::MatrixXd P = node.ekf_->getLatestP();
      const Eigen::Vector3d w = qt * p + t;
      expect(close(x(0), w(0), 1e-6) && close(x(1), w(1), 1e-6), "position " + std::to_string(x(0)) + " " + std::to_string(x(1)) + ", expected " + std::to_string(w(0)) + " " + std::to_string(w(1)));
      const double h = tf2::getYaw(msg(qt)) + tf2::getYaw(msg(qp));
      expect(close(std::sin(x(2)), std::sin(h), 1e-6) && close(std::cos(x(2)), std::cos(h), 1e-6), "heading " + std::to_string(x(2)) + ", expected " + std::to_string(h));
      expect(x(3) == 0 && x(4) == 0 && x(5) == 0, "bias, speed, yaw rate");
      const double d[6] = {m->pose.covariance[0], m->pose.covariance[7], m->pose.covariance[35], 1e-4, 1e-2, 1e-2};
      for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {expect(close(P(i, j), i == j ? d[i] : 0, 1e-9), "covariance (" + std::to_string(i) + "," + std::to_string(j) + ") is " + std::to_string(P(i, j)));}}
      expect(np == 0 && nt == 0, "queued measurements are kept");
      for (int i = 0; i < node.params.extend_state_step_; i++) {expect(node.ekf_->getX(i)(0) == x(0), "window");}
    };
  return run(c, v, {initial});
}
