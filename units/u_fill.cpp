// Unit: label filling. Only instantiates /repo's templates; no logic here except the interface stub
// (a NeighborCheckBase whose operator() is an undefined external function: "any neighbour relation").
#include <cassert>
#include <stdexcept>
#include <string>
#include <vector>
#include "lidar_feature_extraction/fill.hpp"
#include "lidar_feature_extraction/point_label.hpp"
#include "irvc_neighbor.hpp"
template void FillFromLeft<std::vector<PointLabel>>(std::vector<PointLabel>&, const NeighborCheckBase&, int,int,const PointLabel&);
template void FillFromRight<std::vector<PointLabel>>(std::vector<PointLabel>&, const NeighborCheckBase&, int,int,const PointLabel&);
template void FillNeighbors<std::vector<PointLabel>>(std::vector<PointLabel>&, const NeighborCheckBase&, int,int,const PointLabel&);
