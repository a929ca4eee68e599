// Unit: rotations, their derivatives and pose assembly.
#include <cassert>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "rotationlib/src/hat.cpp"
#include "rotationlib/src/quaternion.cpp"
#include "rotationlib/src/jacobian/quaternion.cpp"
#include "lib/src/eigen.cpp"
#include "localization/src/posevec.cpp"
#include "ekf_localizer/matrix_types.hpp"
using Q = Eigen::Quaterniond;
using V3 = Eigen::Vector3d;
using V4 = Eigen::Vector4d;
extern "C" {
void irvc_left(const V4 & q, const V4 & r, V4 & lib, V4 & out)
{
  out = rotationlib::LeftMultiplicationMatrix(rotationlib::FromWXYZ(q)) * r;
  lib = rotationlib::ToWXYZ(rotationlib::FromWXYZ(q) * rotationlib::FromWXYZ(r));
}
void irvc_right(const V4 & q, const V4 & r, V4 & lib, V4 & out)
{
  out = rotationlib::RightMultiplicationMatrix(rotationlib::FromWXYZ(q)) * r;
  lib = rotationlib::ToWXYZ(rotationlib::FromWXYZ(r) * rotationlib::FromWXYZ(q));
}
void irvc_wxyz(const V4 & q, V4 & members, V4 & out)
{
  const Q p = rotationlib::FromWXYZ(q);
  members = V4(p.w(), p.x(), p.y(), p.z());
  out = rotationlib::ToWXYZ(p);
}
void irvc_hat(const V3 & v, Eigen::Matrix3d & k) {k = rotationlib::Hat(v);}
void irvc_rpy(const double r, const double p, const double y, V4 & out) {out = rotationlib::ToWXYZ(rotationlib::RPYToQuaternionXYZ(r, p, y));}
void irvc_drpdq(const V4 & q, const V3 & p, Eigen::Matrix<double, 3, 4> & out) {out = rotationlib::DRpDq(rotationlib::FromWXYZ(q), p);}
void irvc_rotate(const V4 & q, const V3 & p, V3 & byq, V3 & bym)
{
  byq = rotationlib::FromWXYZ(q) * p;
  bym = rotationlib::FromWXYZ(q).toRotationMatrix() * p;
}
void irvc_angle(const V3 & t, V4 & out) {out = rotationlib::ToWXYZ(AngleAxisToQuaternion(t));}
void irvc_pose(const V4 & q, const V3 & t, const V3 & p, V3 & out, Eigen::Matrix4d & m)
{
  const Eigen::Isometry3d pose = MakePose(rotationlib::FromWXYZ(q), t);
  out = pose * p;
  m = pose.matrix();
}
void irvc_isometry(const V4 & q, const V3 & t, const V3 & p, V3 & out, Eigen::Matrix4d & m)
{
  const Eigen::Isometry3d pose = MakeIsometry3d(rotationlib::FromWXYZ(q), t);
  out = pose * p;
  m = pose.matrix();
}
}
