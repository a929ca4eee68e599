#pragma once
#include "../../irvc_pcl.hpp"
#include "../../ros_stub.hpp"
namespace pcl
{
template<typename T> void fromROSMsg(const sensor_msgs::msg::PointCloud2 &, PointCloud<T> &);
template<typename T> void toROSMsg(const PointCloud<T> &, sensor_msgs::msg::PointCloud2 &);
}
