// Unit: residuals and Jacobian rows of edge and plane matching.
#include <cassert>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "irvc_pcl.hpp"
#include "rotationlib/src/hat.cpp"
#include "rotationlib/src/quaternion.cpp"
#include "rotationlib/src/jacobian/quaternion.cpp"
#include "lib/src/eigen.cpp"
#include "localization/src/posevec.cpp"
#include "localization/src/edge.cpp"
#include "lidar_feature_localization/surface.hpp"
using V3 = Eigen::Vector3d;
using V4 = Eigen::Vector4d;
extern "C" {
void irvc_edge(const V4 & q, const V3 & t, const V3 & p0, const V3 & p1, const V3 & p2, V3 & r, Eigen::Matrix<double, 3, 7> & j)
{
  r = MakeEdgeResidual(MakePose(rotationlib::FromWXYZ(q), t), p0, p1, p2);
  j = MakeEdgeJacobianRow(rotationlib::FromWXYZ(q), p0, p1, p2);
}
void irvc_plane(const V3 & w, const V3 & x, double & s, double & a)
{
  s = SignedPointPlaneDistanceVector1d(w, x)(0);
  a = PointPlaneDistance(w, x);
}
void irvc_planerow(const V3 & w, const V4 & q, const V3 & p, Eigen::Matrix<double, 1, 7> & j) {j = MakeJacobianRow(w, rotationlib::FromWXYZ(q), p);}
}
