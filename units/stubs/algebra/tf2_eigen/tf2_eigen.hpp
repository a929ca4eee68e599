#pragma once
// Poses of messages as isometries and back, as tf2_eigen does it.
#include "../../ros_stub.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace tf2
{
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Isometry3d & t)
{
  t.linear() = Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z).toRotationMatrix();
  t.translation() = Eigen::Vector3d(m.position.x, m.position.y, m.position.z);
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & t)
{
  geometry_msgs::msg::Pose m;
  const Eigen::Quaterniond q(t.linear());
  m.position.x = t.translation()(0); m.position.y = t.translation()(1); m.position.z = t.translation()(2);
  m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); m.orientation.w = q.w();
  return m;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & t)
{
  geometry_msgs::msg::TransformStamped m;
  const Eigen::Quaterniond q(t.linear());
  m.transform.translation.x = t.translation()(0); m.transform.translation.y = t.translation()(1); m.transform.translation.z = t.translation()(2);
  m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z(); m.transform.rotation.w = q.w();
  return m;
}
}
