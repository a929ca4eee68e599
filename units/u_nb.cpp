// Unit: the neighbour relation, the mapped points and the range of a point, seen by clients of the public interface.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include "irvc_pcl.hpp"
#include <pcl/point_cloud.h>
#include "lidar_feature_extraction/cloud_iterator.hpp"
#include "lidar_feature_extraction/iterator.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_extraction/range.hpp"
#include "extraction/src/math.cpp"
using Pt = pcl::PointXYZ;
using Ptr = pcl::PointCloud<Pt>::Ptr;
using Idx = std::vector<int>;
extern "C" bool irvc_neighbor(const Ptr & c, const Idx & idx, const double thr, const int i, const int j)
{
  return NeighborCheckXY<Pt>(MappedPoints<Pt>(c, idx), thr)(i, j);
}
extern "C" bool irvc_neighbor_symmetric(const Ptr & c, const Idx & idx, const double thr, const int i, const int j)
{
  const NeighborCheckXY<Pt> n(MappedPoints<Pt>(c, idx), thr);
  const bool a = n(i, j), b = n(j, i);
  return a == b;
}
extern "C" bool irvc_neighbor_slice(const Ptr & c, const Idx & idx, const double thr, const int b, const int e, const int i, const int j)
{
  const NeighborCheckXY<Pt> n(MappedPoints<Pt>(c, idx), thr);
  const NeighborCheckXY<Pt> s = n.Slice(b, e);
  const bool x = s(i, j), y = n(i + b, j + b);
  return x == y && s.size() == e - b;
}
extern "C" int irvc_neighbor_size(const Ptr & c, const Idx & idx, const double thr)
{
  return NeighborCheckXY<Pt>(MappedPoints<Pt>(c, idx), thr).size();
}
extern "C" double irvc_range(const Ptr & c, const Idx & idx, const int i)
{
  return Range<Pt>(MappedPoints<Pt>(c, idx))(i);
}
extern "C" double irvc_range_piece(const Ptr & c, const Idx & idx, const int b, const int e, const int k)
{
  const std::vector<double> r = Range<Pt>(MappedPoints<Pt>(c, idx))(b, e);
  return r.at(k);
}
