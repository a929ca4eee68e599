// Unit: azimuth order of the points of a ring, grouping by ring and removal of sparse rings.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include "irvc_pcl.hpp"
#include <pcl/point_cloud.h>
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_extraction/ring.hpp"
#include "extraction/src/ring.cpp"
using Pt = PointXYZIR;
using Cloud = pcl::PointCloud<Pt>;
using Idx = std::vector<int>;
using Rings = std::unordered_map<int, std::vector<int>>;
extern "C" bool irvc_smaller(const Pt & a, const Pt & b) {return AHasSmallerPolarAngleThanB<Pt>()(a, b);}
extern "C" void irvc_sort(Idx & indices, const Cloud & c) {SortByAtan2(indices, c);}
extern "C" void irvc_group(const Cloud & c, Rings * out) {new (out) Rings(MakePointIndices(c));}
extern "C" void irvc_sort_rings(Rings & r, const Cloud & c) {SortEachRingByAngle(r, c);}
extern "C" void irvc_sparse(Rings & r, const int n) {RemoveSparseRings(r, n);}
