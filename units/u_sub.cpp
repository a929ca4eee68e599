// Unit: the localisation node's callbacks (matrix algebra, clouds as values, ROS behind units/stubs, the optimiser abstract).
#define IRVC_CLOUD_HANDLES
#define IRVC_TIME_BY_REFERENCE
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <stdexcept>
#include <algorithm>
#include <cmath>
#include <iterator>
#include <map>
#include <mutex>
#include <rclcpp/rclcpp.hpp>
#include "lidar_feature_localization/edge_surface_scan.hpp"
#include "lidar_feature_localization/optimization_result.hpp"
// the problem and the optimiser (C14, C15): some pose for every pair of clouds and start
#define LIDAR_FEATURE_LOCALIZATION__EDGE_HPP_
#define LIDAR_FEATURE_LOCALIZATION__LOAM_OPTIMIZATION_PROBLEM_HPP_
#define LIDAR_FEATURE_LOCALIZATION__OPTIMIZER_HPP_
#define LIDAR_FEATURE_LIBRARY__CONVERT_POINT_CLOUD_TYPE_HPP_
extern "C" {
long irvc_match_rotation(long edge, long surface, long l, long t);
long irvc_match_translation(long edge, long surface, long l, long t);
bool irvc_match_success();
void irvc_out(int, double);
}
template<typename P> struct LOAMOptimizationProblem
{
  template<typename A, typename B> LOAMOptimizationProblem(const A &, const B &, std::size_t) {}
};
template<typename P, typename Scan> struct Optimizer
{
  Optimizer(const P &, int) {}
  OptimizationResult Run(const Scan & scan, const Eigen::Isometry3d & p) const
  {
    const long e = irvc_h_get(std::get<0>(scan).id), s = irvc_h_get(std::get<1>(scan).id);
    Eigen::Isometry3d r;
    r.linear().v = irvc_match_rotation(e, s, p.linear().v, p.translation().v);
    r.translation().v = irvc_match_translation(e, s, p.linear().v, p.translation().v);
    return OptimizationResult{r, std::string(), 0, 0., 0., irvc_match_success()};
  }
};
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/subscriber.hpp"
std::ostream & operator<<(std::ostream & o, const Eigen::MatrixXd &) {return o;}
#include "lib/src/ros_msg.cpp"
#include "lib/src/eigen.cpp"
using Point = pcl::PointXYZ;
struct Vector {};
using Loc = Localizer<Vector, Point>;
using Sub = LocalizationSubscriber<Loc, Point>;
using Cloud = sensor_msgs::msg::PointCloud2;
using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped;
// what the node sends
template<> void rclcpp::Publisher<PoseMsg>::publish(const PoseMsg & m)
{
  irvc_out(0, 1);
  irvc_out(1, m.pose.pose.position.x); irvc_out(2, m.pose.pose.position.y); irvc_out(3, m.pose.pose.position.z);
  const auto & q = m.pose.pose.orientation;
  irvc_out(4, q.x); irvc_out(5, q.y); irvc_out(6, q.z); irvc_out(7, q.w);
  irvc_out(8, m.header.stamp.sec); irvc_out(9, m.header.stamp.nanosec);
  irvc_out(10, m.header.frame_id == "map");
  for (int i = 0; i < 36; i++) {irvc_out(100 + i, m.pose.covariance[i]);}
}
void tf2_ros::TransformBroadcaster::sendTransform(const geometry_msgs::msg::TransformStamped & m)
{
  irvc_out(50, 1);
  irvc_out(51, m.transform.translation.x); irvc_out(52, m.transform.translation.y); irvc_out(53, m.transform.translation.z);
  const auto & q = m.transform.rotation;
  irvc_out(54, q.x); irvc_out(55, q.y); irvc_out(56, q.z); irvc_out(57, q.w);
  irvc_out(58, m.header.stamp.sec); irvc_out(59, m.header.stamp.nanosec);
  irvc_out(60, m.header.frame_id == "map"); irvc_out(61, m.child_frame_id == "lidar_feature_base_link");
}
extern "C" {
Sub * irvc_sub() {pcl::PointCloud<Point>::Ptr m; Loc l(m, m, 20); return new Sub(l);}
StampSortedObjects<Eigen::Isometry3d> * irvc_priors(Sub & s) {return &s.prior_poses_;}
void irvc_start(Sub & s, const rclcpp::Time & t, const geometry_msgs::msg::Pose & p) {s.SetOptimizationStartPose(t, p);}
void irvc_start_pose(Sub & s, const geometry_msgs::msg::PoseStamped::ConstSharedPtr & p) {s.OptimizationStartPoseCallback(p);}
void irvc_start_odom(Sub & s, const nav_msgs::msg::Odometry::ConstSharedPtr & p) {s.OptimizationStartOdomCallback(p);}
void irvc_update(Sub & s, const Cloud::ConstSharedPtr & e, const Cloud::ConstSharedPtr & f) {s.PoseUpdateCallback(e, f);}
geometry_msgs::msg::PoseStamped::ConstSharedPtr * irvc_pose(const double * m, const int sec, const unsigned int nano)
{
  auto p = std::make_shared<geometry_msgs::msg::PoseStamped>();
  p->pose.position.x = m[0]; p->pose.position.y = m[1]; p->pose.position.z = m[2];
  auto & q = p->pose.orientation;
  q.x = m[3]; q.y = m[4]; q.z = m[5]; q.w = m[6];
  p->header.stamp.sec = sec; p->header.stamp.nanosec = nano;
  return new geometry_msgs::msg::PoseStamped::ConstSharedPtr(p);
}
nav_msgs::msg::Odometry::ConstSharedPtr * irvc_odom(const double * m, const int sec, const unsigned int nano)
{
  auto p = std::make_shared<nav_msgs::msg::Odometry>();
  p->pose.pose.position.x = m[0]; p->pose.pose.position.y = m[1]; p->pose.pose.position.z = m[2];
  auto & q = p->pose.pose.orientation;
  q.x = m[3]; q.y = m[4]; q.z = m[5]; q.w = m[6];
  p->header.stamp.sec = sec; p->header.stamp.nanosec = nano;
  return new nav_msgs::msg::Odometry::ConstSharedPtr(p);
}
Cloud::ConstSharedPtr * irvc_cloud(const unsigned int which, const int sec, const unsigned int nano)
{
  auto p = std::make_shared<Cloud>();
  p->height = which;
  p->header.stamp.sec = sec; p->header.stamp.nanosec = nano;
  return new Cloud::ConstSharedPtr(p);
}
unsigned int irvc_which(const Cloud & c) {return c.height;}
// what the statement says, in the same algebra
void irvc_given(const double * m, Eigen::Matrix3d & l, Eigen::Vector3d & t)
{
  l = Eigen::Quaterniond(m[6], m[3], m[4], m[5]).toRotationMatrix();
  t = Eigen::Vector3d(m[0], m[1], m[2]);
}
void irvc_sent(const Eigen::Matrix3d & l, const Eigen::Vector3d & t, double * m)
{
  const Eigen::Quaterniond q(l);
  m[0] = t(0); m[1] = t(1); m[2] = t(2); m[3] = q.x(); m[4] = q.y(); m[5] = q.z(); m[6] = q.w();
}
}
