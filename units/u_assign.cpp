// Unit: labelling of a scan line block by block, on a cloud seen through an index list.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include "irvc_pcl.hpp"
#include <pcl/point_cloud.h>
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_extraction/index_range.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "extraction/src/iterator.cpp"
using Pt = pcl::PointXYZ;
using CPtr = pcl::PointCloud<Pt>::Ptr;
extern "C" {
void irvc_assign(
  std::vector<PointLabel> & labels, const std::vector<double> & curvature, const CPtr & cloud, const std::vector<int> & idx, const double radian,
  const PaddedIndexRange & range, const EdgeLabel & edge, const SurfaceLabel & surface)
{
  const NeighborCheckXY<Pt> n(MappedPoints<Pt>(cloud, idx), radian);
  AssignLabel(labels, curvature, n, range, edge, surface);
}
void irvc_make_edge(EdgeLabel * p, const int padding, const double threshold) {new (p) EdgeLabel(padding, threshold);}
void irvc_make_surface(SurfaceLabel * p, const int padding, const double threshold) {new (p) SurfaceLabel(padding, threshold);}
}
