// Unit: edge and surface selection on views, as the extraction uses them; the neighbour relation is arbitrary (see irvc_neighbor.hpp).
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include "irvc_pcl.hpp"
#include <pcl/point_cloud.h>
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "extraction/src/iterator.cpp"
#include "irvc_neighbor.hpp"
using View = span<PointLabel>;
using CView = const_span<double>;
template void FillFromLeft<View>(View &, const NeighborCheckBase &, int, int, const PointLabel &);
template void FillFromRight<View>(View &, const NeighborCheckBase &, int, int, const PointLabel &);
template void FillNeighbors<View>(View &, const NeighborCheckBase &, int, int, const PointLabel &);
template void EdgeLabel::Assign<View, CView>(View &, const CView &, const NeighborCheckBase &) const;
template void SurfaceLabel::Assign<View, CView>(View &, const CView &, const NeighborCheckBase &) const;
extern "C" {
void irvc_make_edge(EdgeLabel * p, const int padding, const double threshold) {new (p) EdgeLabel(padding, threshold);}
void irvc_make_surface(SurfaceLabel * p, const int padding, const double threshold) {new (p) SurfaceLabel(padding, threshold);}
void irvc_view(View * p, std::vector<PointLabel> & v, const int b, const int e) {new (p) View(v.begin() + b, v.begin() + e);}
void irvc_cview(CView * p, const std::vector<double> & v, const int b, const int e) {new (p) CView(v.begin() + b, v.begin() + e);}
void irvc_init(const int n, std::vector<PointLabel> * out) {new (out) std::vector<PointLabel>(InitLabels(n));}
}
