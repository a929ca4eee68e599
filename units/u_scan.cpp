// Unit: marking of occluded, out-of-range and parallel-beam points. Only instantiates /repo's templates for pcl::PointXYZ.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include "irvc_pcl.hpp"
#include <pcl/point_cloud.h>
#include "lidar_feature_extraction/cloud_iterator.hpp"
#include "lidar_feature_extraction/iterator.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/mapped_points.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_extraction/range.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"
using Pt = pcl::PointXYZ;
extern "C" bool irvc_nb(const void *, int, int);
extern "C" int irvc_nb_size(const void *);
// "any neighbour relation" in the place of NeighborCheckXY
struct IrvcNeighborXY : NeighborCheckXY<Pt>
{
  explicit IrvcNeighborXY(const NeighborCheckXY<Pt> & n) : NeighborCheckXY<Pt>(n) {}
  bool operator()(const int a, const int b) const override;
  int size() const override;
};
bool IrvcNeighborXY::operator()(const int a, const int b) const { return irvc_nb(this, a, b); }
int IrvcNeighborXY::size() const { return irvc_nb_size(this); }
extern "C" void irvc_emit_vtable(void * p, const NeighborCheckXY<Pt> & n) { new (p) IrvcNeighborXY(n); }
template void FromLeft<Pt>(std::vector<PointLabel>&, const NeighborCheckXY<Pt>&, const Range<Pt>&, const unsigned int, const double);
template void FromRight<Pt>(std::vector<PointLabel>&, const NeighborCheckXY<Pt>&, const Range<Pt>&, const unsigned int, const double);
template void LabelOccludedPoints<Pt>(std::vector<PointLabel>&, const NeighborCheckXY<Pt>&, const Range<Pt>&, const unsigned int, const double);
template void LabelOutOfRange<Pt>(std::vector<PointLabel>&, const Range<Pt>&, const double, const double);
template void LabelParallelBeamPoints<Pt>(std::vector<PointLabel>&, const Range<Pt>&, const double);
template void FillFromLeft<std::vector<PointLabel>>(std::vector<PointLabel>&, const NeighborCheckBase&, int,int,const PointLabel&);
template void FillFromRight<std::vector<PointLabel>>(std::vector<PointLabel>&, const NeighborCheckBase&, int,int,const PointLabel&);
