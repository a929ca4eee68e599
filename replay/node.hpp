// the real localizer node over units/stubs: a transform tree that throws or answers, real yaw and roll/pitch/yaw
#include <stdexcept>
#include <ostream>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "replay.hpp"
#include "ekf_localizer/src/ekf_localizer.cpp"
#include "ekf_localizer/src/pose_measurement.cpp"
#include "ekf_localizer/src/twist_measurement.cpp"
#include "ekf_localizer/src/tf.cpp"
#include "ekf_localizer/src/covariance.cpp"
#include "ekf_localizer/src/string.cpp"
namespace rp
{
inline geometry_msgs::msg::TransformStamped the_transform;
inline int failures = 0;      // lookups that fail before one is answered
inline std::string asked_parent, asked_child;
}
extern "C" void irvc_log() {}
rclcpp::Clock::SharedPtr rclcpp::Node::get_clock() const {return std::make_shared<rclcpp::Clock>();}
rclcpp::Time rclcpp::Clock::now() {return rclcpp::Time();}
template<typename M> void rclcpp::Publisher<M>::publish(const M &) {}
template struct rclcpp::Publisher<nav_msgs::msg::Odometry>;
rclcpp::Time rclcpp::Node::now() const {return rclcpp::Time();}
geometry_msgs::msg::TransformStamped tf2::BufferCore::lookupTransform(const std::string & p, const std::string & c, int) const
{
  rp::asked_parent = p; rp::asked_child = c;
  if (rp::failures-- > 0) {throw tf2::TransformException("unavailable");}
  return rp::the_transform;
}
double tf2::getYaw(const geometry_msgs::msg::Quaternion & q)
{
  return std::atan2(2 * (q.w * q.z + q.x * q.y), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
}
void tf2::Matrix3x3::getRPY(double & r, double & p, double & y) const
{
  r = std::atan2(2 * (q.w * q.x + q.y * q.z), 1 - 2 * (q.x * q.x + q.y * q.y));
  p = std::asin(std::max(-1., std::min(1., 2 * (q.w * q.y - q.z * q.x))));
  y = std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
}
void tf2_ros::TransformBroadcaster::sendTransform(const geometry_msgs::msg::TransformStamped &) {}
