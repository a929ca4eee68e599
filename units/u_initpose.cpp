// Unit: the initial pose of the localizer node (matrix algebra, ROS and tf2 behind units/stubs).
#define IRVC_PARAM
#include <Eigen/Core>
#include <stdexcept>
#include <ostream>
std::ostream & operator<<(std::ostream & o, const Eigen::MatrixXd &);
#include "ekf_localizer/src/ekf_localizer.cpp"
#include "ekf_localizer/src/pose_measurement.cpp"
#include "ekf_localizer/src/twist_measurement.cpp"
#include "ekf_localizer/src/tf.cpp"
#include "ekf_localizer/src/covariance.cpp"
#include "ekf_localizer/src/string.cpp"
#include "lib/src/ros_msg.cpp"
#include "lib/src/eigen.cpp"
using Tf = geometry_msgs::msg::TransformStamped;
using Twist = geometry_msgs::msg::TwistWithCovarianceStamped;
extern "C" {
bool irvc_available();
const Tf * irvc_transform();
void irvc_asked(const std::string & parent, const std::string & child);
// a node after its construction with what earlier callbacks may have left: a filter or none, queued messages, scalar filters in any state
EKFLocalizer * irvc_node(const bool started, const Eigen::VectorXd & x, const Eigen::MatrixXd & P, const int window, const double * s)
{
  const std::string name("ekf");
  const rclcpp::NodeOptions options;
  auto * node = new EKFLocalizer(name, options);
  if (started) {node->ekf_ = std::make_shared<TimeDelayKalmanFilter>(x, P, window);}
  if (started) {
    node->z_filter_.init(s[0], s[1], rclcpp::Time());
    node->roll_filter_.init(s[2], s[3], rclcpp::Time());
    node->pitch_filter_.init(s[4], s[5], rclcpp::Time());
  }
  return node;
}
PoseWithCovarianceStamped::SharedPtr * irvc_message(const double * m, const double * c)
{
  auto p = std::make_shared<PoseWithCovarianceStamped>();
  p->header.frame_id = "given";
  p->pose.pose.position.x = m[0]; p->pose.pose.position.y = m[1]; p->pose.pose.position.z = m[2];
  auto & q = p->pose.pose.orientation;
  q.x = m[3]; q.y = m[4]; q.z = m[5]; q.w = m[6];
  for (int i = 0; i < 36; i++) {p->pose.covariance[i] = c[i];}
  return new PoseWithCovarianceStamped::SharedPtr(p);
}
Tf * irvc_tf(const double * m)
{
  auto t = new Tf();
  t->transform.translation.x = m[0]; t->transform.translation.y = m[1]; t->transform.translation.z = m[2];
  auto & q = t->transform.rotation;
  q.x = m[3]; q.y = m[4]; q.z = m[5]; q.w = m[6];
  return t;
}
void irvc_initial(EKFLocalizer & node, const PoseWithCovarianceStamped::SharedPtr & msg) {node.callbackInitialPose(msg);}
const TimeDelayKalmanFilter * irvc_filter(const EKFLocalizer & node) {return node.ekf_.get();}
int irvc_window(const EKFLocalizer & node) {return node.params.extend_state_step_;}
const void * irvc_queue(const EKFLocalizer & node, const int i)
{
  return i == 0 ? (const void *)&node.pose_measurement_.messages_.msgs_ : i == 1 ? (const void *)&node.pose_measurement_.messages_.ages_ :
    i == 2 ? (const void *)&node.twist_measurement_.messages_.msgs_ : (const void *)&node.twist_measurement_.messages_.ages_;
}
void irvc_scalars(const EKFLocalizer & node, double * s)
{
  s[0] = node.z_filter_.x_; s[1] = node.z_filter_.stddev_; s[2] = node.roll_filter_.x_; s[3] = node.roll_filter_.stddev_;
  s[4] = node.pitch_filter_.x_; s[5] = node.pitch_filter_.stddev_;
}
// the pose moved by the transform, as the statement has it
void irvc_moved(const double * p, const double * t, Eigen::Vector3d * out)
{
  const Eigen::Vector3d moved = Eigen::Quaterniond(t[6], t[3], t[4], t[5]) * Eigen::Vector3d(p[0], p[1], p[2]) + Eigen::Vector3d(t[0], t[1], t[2]);
  *out = moved;
}
}
rclcpp::Clock::SharedPtr rclcpp::Node::get_clock() const {return std::make_shared<rclcpp::Clock>();}
// the transform tree: a lookup either throws or answers with the current transform
Tf tf2::BufferCore::lookupTransform(const std::string & parent, const std::string & child, int) const
{
  irvc_asked(parent, child);
  if (!irvc_available()) {throw tf2::TransformException("unavailable");}
  return *irvc_transform();
}
