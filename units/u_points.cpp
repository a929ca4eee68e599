// Unit: points of the clouds published: features with their curvature, points in their label's colour.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include "irvc_pcl.hpp"
#include <pcl/point_cloud.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_extraction/color_points.hpp"
#include "extraction/src/color_points.cpp"
using Pt = PointXYZIR;
using Cloud = pcl::PointCloud<Pt>;
using Colored = pcl::PointCloud<pcl::PointXYZRGB>;
extern "C" {
void irvc_append(Cloud & out, const std::vector<Pt> & p, const std::vector<double> & c)
{
  AppendXYZIR<Pt>(Cloud::Ptr(Cloud::Ptr(), &out), p, c);
}
const Colored * irvc_color(Cloud & c, const std::vector<int> & indices, const std::vector<PointLabel> & labels)
{
  const MappedPoints<Pt> m(Cloud::Ptr(Cloud::Ptr(), &c), indices);
  return new Colored(*ColorPointsByLabel<Pt>(m, labels));
}
}
