// Unit: the gating loops around the delayed filter (matrix algebra, ROS and tf2 behind units/stubs).
#include <Eigen/Core>
#include <stdexcept>
#include <ostream>
std::ostream & operator<<(std::ostream & o, const Eigen::MatrixXd &);
#include "ekf_localizer/src/pose_measurement.cpp"
#include "ekf_localizer/src/twist_measurement.cpp"
#include "ekf_localizer/src/check.cpp"
#include "ekf_localizer/src/mahalanobis.cpp"
using Twist = geometry_msgs::msg::TwistWithCovarianceStamped;
using Filter = std::shared_ptr<TimeDelayKalmanFilter>;
extern "C" {
int irvc_delay_step(const double delay, const double dt) {return ComputeDelayStep(delay, dt);}
double irvc_delay_time(const rclcpp::Time & now, const rclcpp::Time & stamp) {return ComputeDelayTime(now, stamp);}
double irvc_distance(const Eigen::VectorXd & x, const Eigen::VectorXd & y, const Eigen::MatrixXd & C) {return SquaredMahalanobis(x, y, C);}
bool irvc_gate(const double & limit, const Eigen::MatrixXd & x, const Eigen::MatrixXd & y, const Eigen::MatrixXd & C) {return MahalanobisGate(limit, x, y, C);}
bool irvc_fits(const Warning & w, const int step, const int window) {return CheckDelayStep(w, step, window);}
bool irvc_valid(const Warning & w, const Eigen::MatrixXd & M) {return CheckMeasurementMatrixNanInf(w, M);}

PoseMeasurement * irvc_pose_new(const int window, const double gate, const int smoothing)
{
  return new PoseMeasurement(Warning(nullptr), "map", window, gate, smoothing);
}
TwistMeasurement * irvc_twist_new(const int window, const double gate, const int smoothing)
{
  return new TwistMeasurement(Warning(nullptr), window, gate, smoothing);
}
void irvc_pose_round(PoseMeasurement & m, Filter & f, const rclcpp::Time & now, const double dt) {m.Update(f, now, dt);}
void irvc_twist_round(TwistMeasurement & m, Filter & f, const rclcpp::Time & now, const double dt) {m.Update(f, now, dt);}
// where a message keeps the fields the filter is given
unsigned long irvc_pose_size() {return sizeof(PoseWithCovarianceStamped);}
unsigned long irvc_twist_size() {return sizeof(Twist);}
const void * irvc_pose_field(const PoseWithCovarianceStamped & m, const int k)
{
  const auto & p = m.pose.pose;
  switch (k) {
    case 0: return &m.header.stamp.sec;
    case 1: return &m.header.stamp.nanosec;
    case 2: return &p.position.x;
    case 3: return &p.position.y;
    case 4: return &p.orientation.x;
    case 5: return &p.orientation.y;
    case 6: return &p.orientation.z;
    case 7: return &p.orientation.w;
    default: return &m.pose.covariance[k - 8];
  }
}
const void * irvc_twist_field(const Twist & m, const int k)
{
  switch (k) {
    case 0: return &m.header.stamp.sec;
    case 1: return &m.header.stamp.nanosec;
    case 2: return &m.twist.twist.linear.x;
    case 3: return &m.twist.twist.angular.z;
    default: return &m.twist.covariance[k - 4];
  }
}
}
