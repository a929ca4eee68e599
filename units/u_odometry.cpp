// Unit: map of recent scans and the odometry pose chain (matrix algebra, clouds as values).
#define IRVC_CLOUD_HANDLES
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <stdexcept>
#include <algorithm>
#include <iostream>
#include "lidar_feature_localization/recent_scans.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
using Point = pcl::PointXYZ;
using Cloud = pcl::PointCloud<Point>;
using Recent = RecentScans<Point>;
using Map = PointCloudMap<Point>;
extern "C" {
long irvc_match_rotation(long map, long scan, long l, long t);
long irvc_match_translation(long map, long scan, long l, long t);
}
// the matcher: some pose for every map, scan and start
struct Matcher
{
  long map;
  explicit Matcher(const Cloud::Ptr & m) : map(irvc_h_get(m.id)) {}
  Eigen::Isometry3d operator()(const Cloud::Ptr & scan, const Eigen::Isometry3d & p) const
  {
    const long s = irvc_h_get(scan.id);
    Eigen::Isometry3d r;
    r.linear().v = irvc_match_rotation(map, s, p.linear().v, p.translation().v);
    r.translation().v = irvc_match_translation(map, s, p.linear().v, p.translation().v);
    return r;
  }
};
using Odo = Odometry<Matcher, Map, Cloud::Ptr>;
extern "C" {
long irvc_merge(const std::vector<Cloud::Ptr> & scans) {return MergeClouds<Point>(scans).id;}
Recent * irvc_recent() {return new Recent();}
std::vector<Cloud::Ptr> * irvc_scans(Recent & r) {return &r.scans_;}
long irvc_get_recent(const Recent & r, const int n) {return r.GetRecent(n).id;}
long irvc_get_all(const Recent & r) {return r.GetAll().id;}
bool irvc_is_empty(const Recent & r) {return r.IsEmpty();}
void irvc_add(Recent & r, const Eigen::Matrix3d & l, const Eigen::Vector3d & t, const long scan)
{
  Cloud::Ptr p; p.id = scan;
  r.Add(Eigen::Isometry3d(l, t, 0), p);
}
Odo * irvc_odometry(const int n)
{
  auto map = std::make_shared<Map>(n);
  return new Odo(map);
}
std::vector<Cloud::Ptr> * irvc_odometry_scans(Odo & o) {return &o.map_->scans_.scans_;}
void irvc_put(Odo & o, const Eigen::Matrix3d & l, const Eigen::Vector3d & t) {o.pose_.linear() = l; o.pose_.translation() = t;}
void irvc_pose(const Odo & o, Eigen::Matrix3d & l, Eigen::Vector3d & t) {const auto p = o.CurrentPose(); l = p.linear(); t = p.translation();}
void irvc_update(Odo & o, const long scan)
{
  Cloud::Ptr p; p.id = scan;
  o.Update(p);
}
}
