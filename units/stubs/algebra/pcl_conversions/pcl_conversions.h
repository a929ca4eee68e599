#pragma once
#include "pcl/point_cloud.h"
#include "../../ros_stub.hpp"
namespace sensor_msgs::msg {struct PointCloud2;}
extern "C" long irvc_c_read(const sensor_msgs::msg::PointCloud2 *);   // the points of a message
namespace pcl
{
template<typename T> void fromROSMsg(const sensor_msgs::msg::PointCloud2 & m, PointCloud<T> & c) {c.v = irvc_c_read(&m);}
#ifdef IRVC_CLOUD_HANDLES
inline void fromROSMsg(const sensor_msgs::msg::PointCloud2 & m, CloudRef c) {irvc_h_set(c.id, irvc_c_read(&m));}
#ifdef IRVC_MESSAGE_CLOUD
inline void toROSMsg(const CloudRef & c, sensor_msgs::msg::PointCloud2 & m) {m.irvc_cloud = irvc_h_get(c.id);}
#else
inline void toROSMsg(const CloudRef &, sensor_msgs::msg::PointCloud2 &) {}
#endif
#endif
template<typename T> void toROSMsg(const PointCloud<T> &, sensor_msgs::msg::PointCloud2 &);
}
