// Unit: keyframe map building (matrix algebra, clouds as values, ROS behind units/stubs).
#define IRVC_CLOUD_HANDLES
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <stdexcept>
#include <rclcpp/rclcpp.hpp>
#include "lidar_feature_mapping/map.hpp"
#include "lib/src/ros_msg.cpp"
using Point = pcl::PointXYZ;
using Builder = MapBuilder<Point>;
using Cloud = sensor_msgs::msg::PointCloud2;
using Pose = geometry_msgs::msg::PoseStamped;
extern "C" {
Builder * irvc_builder() {return new Builder();}
long irvc_map(const Builder & b) {return irvc_h_get(b.map_->map_ptr_.id);}
void irvc_set(Builder & b, const long map, const Eigen::Matrix3d & l, const Eigen::Vector3d & t)
{
  irvc_h_set(b.map_->map_ptr_.id, map);
  b.prev_transform_.linear() = l;
  b.prev_transform_.translation() = t;
}
void irvc_last(const Builder & b, Eigen::Matrix3d & l, Eigen::Vector3d & t) {l = b.prev_transform_.linear(); t = b.prev_transform_.translation();}
Pose::ConstSharedPtr * irvc_pose(const double * m)
{
  auto p = std::make_shared<Pose>();
  p->pose.position.x = m[0]; p->pose.position.y = m[1]; p->pose.position.z = m[2];
  auto & q = p->pose.orientation;
  q.x = m[3]; q.y = m[4]; q.z = m[5]; q.w = m[6];
  return new Pose::ConstSharedPtr(p);
}
Cloud::ConstSharedPtr * irvc_cloud() {return new Cloud::ConstSharedPtr(std::make_shared<Cloud>());}
// what the statement says of two poses, in the same algebra
void irvc_between(const Eigen::Matrix3d & l0, const Eigen::Vector3d & t0, const Eigen::Matrix3d & l1, const Eigen::Vector3d & t1, Eigen::Vector3d & dt, Eigen::Vector3d & dq)
{
  dt = l0.transpose() * (t1 - t0);
  dq = Eigen::Quaterniond(Eigen::Matrix3d(l0.transpose() * l1)).vec();
}
void irvc_given(const Pose & p, Eigen::Matrix3d & l, Eigen::Vector3d & t)
{
  l = Eigen::Quaterniond(p.pose.orientation.w, p.pose.orientation.x, p.pose.orientation.y, p.pose.orientation.z).toRotationMatrix();
  t = Eigen::Vector3d(p.pose.position.x, p.pose.position.y, p.pose.position.z);
}
bool irvc_small(const Eigen::Matrix3d & l0, const Eigen::Vector3d & t0, const Eigen::Matrix3d & l1, const Eigen::Vector3d & t1, const double a, const double b)
{
  return PoseDiffIsSufficientlySmall(Eigen::Isometry3d(l0, t0, 0), Eigen::Isometry3d(l1, t1, 0), a, b);
}
void irvc_callback(Builder & b, const Cloud::ConstSharedPtr & c, const Pose::ConstSharedPtr & p) {b.Callback(c, p);}
void irvc_save(const Builder & b, const std::string & name) {b.SaveMap(name);}
}
